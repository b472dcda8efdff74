// C08, C09: bounded histories of unique_ptr operations with value, reference, function-pointer and default deleters,
// single objects and arrays, including adoption into a shared pointer.  Deleter identities (tags) are symbolic.
#include "sv.h"
#include <xmem/unique_ptr.hpp>
#include <xmem/shared_ptr.hpp>
#ifndef K
#define K 2
#endif

static const int MAXO = 24;
static int made;
static uint8_t gone[MAXO];
static uint32_t pair_of[MAXO];       // tag of the deleter each object was last paired with
static void* at_[MAXO];
struct X1 { uint64_t pad = 1; virtual ~X1() = default; };
struct A0 {
    int id; uint32_t mark;
    A0() : id(++made), mark(uint32_t(id) * 11) { at_[id] = this; }
    A0(const A0&) = delete;
    virtual ~A0() { CHECK(mark == uint32_t(id) * 11); CHECK(gone[id] == 0); ++gone[id]; }
};
struct A : Life<A>, A0 {};
struct D : Life<D>, X1, A0 {};

static void dispose(A0* p, uint32_t tag) {
    CHECK(p != nullptr);                 // a null pointer never reaches a deleter
    CHECK(gone[p->id] == 0);
    CHECK(pair_of[p->id] == tag);        // the deleter it was paired with
    delete p;
}
// value deleter whose moves take the state away
template <class T> struct Del {
    uint32_t tag = 0;
    bool valid = false;
    Del() = default;
    explicit Del(uint32_t t) : tag(t), valid(true) {}
    Del(Del&& o) noexcept : tag(o.tag), valid(o.valid) { o.valid = false; }
    Del(const Del&) = default;               // a move that copies would leave both with the state
    Del& operator=(const Del&) = default;
    Del& operator=(Del&& o) noexcept { if (this != &o) { tag = o.tag; valid = o.valid; o.valid = false; } return *this; }
    template <class U> Del(const Del<U>& o) noexcept : tag(o.tag), valid(o.valid) {}
    template <class U> Del(Del<U>&& o) noexcept : tag(o.tag), valid(o.valid) { o.valid = false; }
    template <class U> Del& operator=(Del<U>&& o) noexcept { tag = o.tag; valid = o.valid; o.valid = false; return *this; }
    void operator()(T* p) { CHECK(valid); dispose(p, tag); }
};
struct RDel { uint32_t tag; void operator()(A0* p) { dispose(p, tag); } };
struct RDelX { uint64_t pad = 8; virtual void f() {} };
struct RDel2 : RDelX, RDel { explicit RDel2(uint32_t t) { tag = t; } };
static uint32_t tags[3];
template <int I> void fdel(A0* p) { dispose(p, tags[I]); }
template <int I> void fdelD(D* p) { dispose(p, tags[I]); }
using FnT = void (*)(A0*);
struct FnLike { operator FnT() const { return &fdel<2>; } void operator()(A0* p) const { dispose(p, tags[2]); } };

struct KV {      // value deleters
    using U = xmem::unique_ptr<A0, Del<A0>>; using C = xmem::unique_ptr<D, Del<D>>;
    static U mk(A0* p, int t) { pair_of[p->id] = tags[t]; return U(p, Del<A0>(tags[t])); }
    static C mkc(D* p, int t) { pair_of[p->id] = tags[t]; return C(p, Del<D>(tags[t])); }
    static U null(int t) { return U(nullptr, Del<A0>(tags[t])); }
    static uint32_t tag(U& u) { CHECK(u.get_deleter().valid); return u.get_deleter().tag; }
    static uint32_t tag(C& u) { CHECK(u.get_deleter().valid); return u.get_deleter().tag; }
    static bool usable(U& u) { return u.get_deleter().valid; }
    static bool usable(C& u) { return u.get_deleter().valid; }
    static uint32_t held(U& u) { return usable(u) ? u.get_deleter().tag : 0; }
    static uint32_t held(C& u) { return usable(u) ? u.get_deleter().tag : 0; }
    static const bool drains = true;     // a move leaves the source's deleter without its state
    static const bool conv = true;
};
static RDel rd0{0}, rd1{0};
static RDel2 rd2{0};
struct KR {      // reference deleters
    using U = xmem::unique_ptr<A0, RDel&>; using C = xmem::unique_ptr<D, RDel2&>;
    static RDel& d(int t) { rd0.tag = tags[0]; rd1.tag = tags[1]; rd2.tag = tags[2]; return t == 0 ? rd0 : t == 1 ? rd1 : static_cast<RDel&>(rd2); }
    static U mk(A0* p, int t) { pair_of[p->id] = tags[t]; return U(p, d(t)); }
    static C mkc(D* p, int) { d(2); pair_of[p->id] = tags[2]; return C(p, rd2); }
    static U null(int t) { return U(d(t)); }
    static uint32_t tag(U& u) { return u.get_deleter().tag; }
    static uint32_t tag(C& u) { return u.get_deleter().tag; }
    static bool usable(U&) { return true; }
    static bool usable(C&) { return true; }
    static uint32_t held(U& u) { return tag(u); }
    static uint32_t held(C& u) { return tag(u); }
    static const bool drains = false;
    static const bool conv = true;
};
struct KF {      // function pointers; the "converting" source has a deleter type convertible to the pointer
    using U = xmem::unique_ptr<A0, void (*)(A0*)>; using C = xmem::unique_ptr<D, FnLike>;
    static U mk(A0* p, int t) { pair_of[p->id] = tags[t]; return U(p, t == 0 ? &fdel<0> : t == 1 ? &fdel<1> : &fdel<2>); }
    static C mkc(D* p, int) { pair_of[p->id] = tags[2]; return C(p, FnLike{}); }
    static U null(int t) { return U(t == 0 ? &fdel<0> : &fdel<1>); }
    static uint32_t tag(U& u) { auto f = u.get_deleter(); return f == &fdel<0> ? tags[0] : f == &fdel<1> ? tags[1] : f == &fdel<2> ? tags[2] : 0; }
    static uint32_t tag(C&) { return tags[2]; }
    static bool usable(U&) { return true; }
    static bool usable(C&) { return true; }
    static uint32_t held(U& u) { return tag(u); }
    static uint32_t held(C& u) { return tag(u); }
    static const bool drains = false;
    static const bool conv = false;      // converting construction needs the same deleter type
};
struct KG {      // function pointers which take a base; the converting source has the same deleter type
    using U = xmem::unique_ptr<A0, void (*)(A0*)>; using C = xmem::unique_ptr<D, void (*)(A0*)>;
    static FnT fn(int t) { return t == 0 ? &fdel<0> : t == 1 ? &fdel<1> : &fdel<2>; }
    template <class P> static uint32_t tg(P& u) { auto f = u.get_deleter(); return f == &fdel<0> ? tags[0] : f == &fdel<1> ? tags[1] : f == &fdel<2> ? tags[2] : 0; }
    static U mk(A0* p, int t) { pair_of[p->id] = tags[t]; return U(p, fn(t)); }
    static C mkc(D* p, int t) { pair_of[p->id] = tags[t]; return C(p, fn(t)); }
    static U null(int t) { return U(fn(t)); }
    static uint32_t tag(U& u) { return tg(u); }
    static uint32_t tag(C& u) { return tg(u); }
    static bool usable(U&) { return true; }
    static bool usable(C&) { return true; }
    static uint32_t held(U& u) { return tag(u); }
    static uint32_t held(C& u) { return tag(u); }
    static const bool drains = false;
    static const bool conv = true;
};
struct KD {      // default deleters: the objects are deleted directly
    using U = xmem::unique_ptr<A0>; using C = xmem::unique_ptr<D>;
    static U mk(A0* p, int) { return U(p); }
    static C mkc(D* p, int) { return C(p); }
    static U null(int) { return U(); }
    static uint32_t tag(U&) { return 0; }
    static uint32_t tag(C&) { return 0; }
    static bool usable(U&) { return true; }
    static bool usable(C&) { return true; }
    static uint32_t held(U& u) { return tag(u); }
    static uint32_t held(C& u) { return tag(u); }
    static const bool drains = false;
    static const bool conv = true;
};

template <class KK> struct Uw {
    using U = typename KK::U; using C = typename KK::C;
    U a = KK::null(0), b = KK::null(1);
    C c = KK::mkc(nullobj(), 2);
    xmem::shared_ptr<A0> s;
    int ga = 0, gb = 0, gc = 0, gs = 0;     // object ids held
    uint32_t adopted = 0;
    uint32_t da = 0, db = 0, dc = 0;        // tags of the deleters held, whether or not there is an object (0: moved away)
    bool released[MAXO] = {};

    static D* nullobj() { return new D; }   // the converting slot starts with an object
    template <class P> void one(P& p, int id) {
        CHECK(bool(p) == (id != 0));
        if (!id) { CHECK(p.get() == nullptr); return; }
        CHECK(static_cast<A0*>(p.get()) == static_cast<A0*>(at_[id]));
        CHECK(p->id == id);
        CHECK((*p).id == id);
        CHECK(p.operator->() == p.get());
        CHECK(KK::tag(p) == pair_of[id]);
    }
    static void mv(uint32_t& to, uint32_t& from) { to = from; if (KK::drains && &to != &from) from = 0; }
    void start() { da = KK::held(a); db = KK::held(b); dc = KK::held(c); }
    void verify() {
        // deleters travel with every move and swap, of null pointers too
        CHECK(KK::held(a) == da); CHECK(KK::held(b) == db); CHECK(KK::held(c) == dc);
        one(a, ga); one(b, gb); one(c, gc);
        CHECK(s.get() == (gs ? static_cast<A0*>(at_[gs]) : nullptr));
        for (int i = 1; i <= made; ++i) CHECK(gone[i] == (i == ga || i == gb || i == gc || i == gs || released[i] ? 0 : 1));
    }
    int obj() { return made; }
    void fresh(U& u, int& gu, uint32_t& du, bool d) {
        A0* p = d ? static_cast<A0*>(new D) : static_cast<A0*>(new A);
        if (!KK::usable(u)) { u = KK::mk(p, 1); gu = made; du = pair_of[made]; return; }
        pair_of[p->id] = KK::tag(u);
        u.reset(p);
        gu = p->id;
    }
    void step(uint32_t op) {
        switch (op) {
        case 0: { auto& r = (a = std::move(b)); CHECK(&r == &a); } ga = gb; gb = 0; mv(da, db); break;
        case 1: b = std::move(a); gb = ga; ga = 0; mv(db, da); break;
        case 2: { auto& r = (a = std::move(c)); CHECK(&r == &a); } ga = gc; gc = 0; mv(da, dc); break;
        case 3: a.swap(b); std::swap(ga, gb); std::swap(da, db); break;
        case 4: a.reset(); ga = 0; break;
        case 5: fresh(a, ga, da, false); break;
        case 6: { A0* p = a.release(); CHECK(p == (ga ? static_cast<A0*>(at_[ga]) : nullptr)); if (ga) released[ga] = true; ga = 0; } break;
        case 7: { auto& r = (b = nullptr); CHECK(&r == &b); } gb = 0; break;
        case 8: { auto& r = a; a = std::move(r); } break;
        case 9: { U t(std::move(a)); int gt = ga; ga = 0; one(t, gt); one(a, 0); uint32_t dt; mv(dt, da); CHECK(KK::held(t) == dt); } break;
        case 10: { U t(std::move(b)); one(b, 0); b = std::move(t); CHECK(!t); CHECK(!KK::drains || !KK::held(t)); } break;
        case 11: { C t = KK::mkc(new D, 2); int gt = made; c = std::move(t); CHECK(!t); gc = gt; dc = pair_of[gt]; } break;
        case 12: b = KK::mk(new A, 0); gb = made; db = pair_of[made]; break;
        case 13: { C t(std::move(c)); CHECK(!c); c.swap(t); CHECK(!t); } break;
        case 14:
            if constexpr (KK::conv) { U t(std::move(c)); uint32_t dt; mv(dt, dc); CHECK(KK::held(t) == dt); one(t, gc); CHECK(!c); a.swap(t); std::swap(ga, gc); std::swap(da, dt); int gt = gc; gc = 0; one(t, gt); CHECK(KK::held(t) == dt); }
            else { c.reset(); gc = 0; }
            break;
        case 15: { bool had = bool(a); s = std::move(a); if (had) mv(adopted, da); else da = KK::held(a); } gs = ga; ga = 0; break;
        case 16: { bool had = bool(c); s = xmem::shared_ptr<A0>(std::move(c)); if (had) mv(adopted, dc); else dc = KK::held(c); } gs = gc; gc = 0; break;
        case 17: s.reset(); gs = 0; break;
        case 18: { auto& r = b; b.swap(r); } break;
        case 19: { using std::swap; swap(a, b); } std::swap(ga, gb); std::swap(da, db); break;
        case 20: b = U(std::move(a)); gb = ga; ga = 0; mv(db, da); break;
        case 21: fresh(b, gb, db, true); break;
        default: break;
        }
    }
    void end() { for (int i = 1; i <= made; ++i) if (released[i]) { delete static_cast<A0*>(at_[i]); } }
};
static const uint32_t NOPS = 22;

static void mktags() {
    for (auto& t : tags) t = sv_u32();
    sv_assume(tags[0] != tags[1] && tags[1] != tags[2] && tags[0] != tags[2]);
    sv_assume(tags[0] != 0 && tags[1] != 0 && tags[2] != 0);
}
template <class KK> static void history(int cfg) {
    if (!std::is_same<KK, KD>::value) mktags();
    {
        Uw<KK> w;
        w.gc = 1;
        w.start();
        w.verify();
        switch (cfg) {
        case 1: w.step(12); w.a = KK::mk(new D, 1); w.ga = made; w.da = pair_of[made]; w.verify(); break;
        case 2: w.step(12); w.step(15); w.verify(); break;
        default: break;
        }
        for (int i = 0; i < K; ++i) { w.step(sv_choose(NOPS)); w.verify(); }
        sv_obs(uint64_t(made));
        for (int i = 1; i <= made; ++i) sv_obs(gone[i]);
        w.end();
    }
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
ENTRY h_uval_0() { history<KV>(0); }
ENTRY h_uval_1() { history<KV>(1); }
ENTRY h_uref_0() { history<KR>(0); }
ENTRY h_uref_1() { history<KR>(1); }
ENTRY h_ufun_0() { history<KF>(0); }
ENTRY h_ufun_1() { history<KF>(1); }
ENTRY h_ufnb_0() { history<KG>(0); }
ENTRY h_ufnb_1() { history<KG>(1); }
ENTRY h_udef_0() { history<KD>(0); }
ENTRY h_udef_1() { history<KD>(1); }
ENTRY h_udef_2() { history<KD>(2); }

// ---- arrays
static int elive;
struct El { int id; El() : id(++made) { ++elive; } El(const El&) = delete; ~El() { CHECK(gone[id] == 0); ++gone[id]; --elive; } };
struct ADel {
    uint32_t tag = 0; bool valid = false;
    ADel() = default;
    explicit ADel(uint32_t t) : tag(t), valid(true) {}
    ADel(ADel&& o) noexcept : tag(o.tag), valid(o.valid) { o.valid = false; }
    ADel(const ADel&) = default; ADel& operator=(const ADel&) = default;
    ADel& operator=(ADel&& o) noexcept { if (this != &o) { tag = o.tag; valid = o.valid; o.valid = false; } return *this; }
    void operator()(El* p) { CHECK(p); CHECK(valid); CHECK(pair_of[p->id] == tag); delete[] p; }
};
template <class U, bool Stateful> static U mka(int n, int t) {
    El* p = new El[n]; pair_of[p->id] = tags[t];
    if constexpr (Stateful) return U(p, ADel(tags[t])); else return U(p);
}
template <class U, bool Stateful> static void arrays() {
    mktags();
    {
        U a = mka<U, Stateful>(2, 0), b = mka<U, Stateful>(1, 1);
        int ga = 1, gb = 3;      // id of the first element
        El* pa = a.get(); El* pb = b.get();
        bool rel = false;
        uint32_t da = tags[0], db = tags[1];    // deleters held, with or without an object
        auto mv = [](uint32_t& to, uint32_t& from) { to = from; if (&to != &from) from = 0; };
        auto held = [](U& u) -> uint32_t { if constexpr (Stateful) return u.get_deleter().valid ? u.get_deleter().tag : 0; else return (void)u, 0; };
        auto verify = [&] {
            CHECK(a.get() == (ga == 1 ? pa : ga == 3 ? pb : nullptr));
            CHECK(b.get() == (gb == 1 ? pa : gb == 3 ? pb : nullptr));
            CHECK(bool(a) == (ga != 0)); CHECK(bool(b) == (gb != 0));
            if (Stateful) CHECK(held(a) == da && held(b) == db);
            if (ga) CHECK(a[0].id == ga);
            if (ga == 1) CHECK(a[1].id == 2 && &a[1] == pa + 1);
            if constexpr (Stateful) { if (ga) CHECK(a.get_deleter().valid && a.get_deleter().tag == pair_of[ga]); if (gb) CHECK(b.get_deleter().valid && b.get_deleter().tag == pair_of[gb]); }
            bool l1 = ga == 1 || gb == 1 || (rel), l3 = ga == 3 || gb == 3;
            CHECK(gone[1] == (l1 ? 0 : 1)); CHECK(gone[2] == (l1 ? 0 : 1)); CHECK(gone[3] == (l3 ? 0 : 1));
        };
        verify();
        if (sv_choose(2)) { a.reset(); ga = 0; b.reset(); gb = 0; verify(); }     // both null, with their deleters
        for (int i = 0; i < K; ++i) {
            switch (sv_choose(10)) {
            case 0: a = std::move(b); ga = gb; gb = 0; mv(da, db); break;
            case 1: b = std::move(a); gb = ga; ga = 0; mv(db, da); break;
            case 2: a.swap(b); std::swap(ga, gb); std::swap(da, db); break;
            case 3: a.reset(); ga = 0; break;
            case 4: b = nullptr; gb = 0; break;
            case 5: { auto& r = a; a = std::move(r); a.swap(r); } break;
            case 6: { U t(std::move(a)); CHECK(!a); ga = 0; uint32_t dt; mv(dt, da); if (Stateful) CHECK(held(t) == dt); } break;
            case 7: { U t(std::move(b)); CHECK(!b); b = std::move(t); CHECK(!t); } break;
            case 8: if (ga == 1) { El* p = a.release(); CHECK(p == pa && !a); ga = 0; rel = true; } break;
            case 9: { using std::swap; swap(a, b); std::swap(ga, gb); std::swap(da, db); } break;
            }
            verify();
        }
        sv_obs(uint64_t(elive));
        if (rel) delete[] pa;
    }
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
ENTRY h_uarr_def() { arrays<xmem::unique_ptr<El[]>, false>(); }
ENTRY h_uarr_del() { arrays<xmem::unique_ptr<El[], ADel>, true>(); }

// ---- an adopted object is disposed of by the deleter it came with, through every adopting form
ENTRY h_adopt() {
    mktags();
    {
        xmem::shared_ptr<A0> s;
        D* p = new D;
        pair_of[1] = tags[0];
        switch (sv_choose(9)) {
        case 0: s = xmem::shared_ptr<A0>(p, Del<D>(tags[0])); break;
        case 1: s.reset(p, Del<D>(tags[0])); break;
        case 2: { xmem::unique_ptr<D, Del<D>> u(p, Del<D>(tags[0])); s = std::move(u); CHECK(!u); } break;
        case 3: { xmem::unique_ptr<A0, Del<A0>> u = KV::mkc(p, 0); xmem::shared_ptr<A0> x(std::move(u)); s = std::move(x); CHECK(!u); } break;
        case 4: { KR::d(0); xmem::unique_ptr<D, RDel&> u(p, rd0); s = std::move(u); CHECK(!u); } break;
        case 5: { xmem::unique_ptr<A0, void (*)(A0*)> u(p, &fdel<0>); s = std::move(u); CHECK(!u); } break;
        case 6: s = xmem::shared_ptr<A0>(p, &fdelD<0>); break;
        case 7: s.reset(static_cast<A0*>(p), &fdel<0>); break;
        case 8: { auto l = [t = tags[0]](D* q) { dispose(q, t); }; s = xmem::shared_ptr<D>(p, l); } break;
        }
        CHECK(s.get() == p && s.use_count() == 1 && gone[1] == 0);
        xmem::weak_ptr<A0> w(s);
        xmem::shared_ptr<A0> c(s);
        if (sv_choose(2)) s.reset(); else s = xmem::shared_ptr<D>(new D);
        CHECK(gone[1] == 0);
        c.reset();
        CHECK(gone[1] == 1);
        CHECK(w.expired());
    }
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
// construction from nullptr and the constant views
ENTRY h_const() {
    mktags();
    xmem::unique_ptr<A0> z(nullptr), z2 = nullptr; xmem::unique_ptr<El[]> y(nullptr), y2 = nullptr;
    CHECK(!z && !z2 && !y && !y2 && z.get() == nullptr && y.get() == nullptr);
    auto d = new D; pair_of[d->id] = tags[0];
    int id = d->id;
    const KV::U u(d, Del<A0>(tags[0]));
    const KV::U& cu = u;
    CHECK(cu.get_deleter().valid && cu.get_deleter().tag == tags[0] && cu.get() == d && cu->id == id && &*cu == static_cast<A0*>(d) && bool(cu));
    rd1.tag = tags[1];
    auto b = new A; pair_of[b->id] = tags[1];
    const KR::U r(b, rd1);
    CHECK(&r.get_deleter() == &rd1 && r.get() == b && bool(r) && r->id == b->id);
    auto c = new A; pair_of[c->id] = tags[1];
    const KF::U f(c, &fdel<1>);
    CHECK(f.get_deleter() == &fdel<1> && f.get() == c && bool(f) && (*f).id == c->id);
    const xmem::unique_ptr<El[], ADel> e = mka<xmem::unique_ptr<El[], ADel>, true>(2, 2);
    CHECK(e.get_deleter().valid && e.get_deleter().tag == tags[2] && bool(e) && &e[1] == e.get() + 1);
}
// a null pointer is never passed to a deleter
ENTRY h_null() {
    mktags();
    xmem::unique_ptr<A0, Del<A0>> a(nullptr, Del<A0>(tags[0])), b;
    xmem::unique_ptr<A0, RDel&> r(rd0);
    xmem::unique_ptr<A0, void (*)(A0*)> f(&fdel<0>);
    xmem::unique_ptr<El[]> e(nullptr);
    CHECK(!a && !b && !r && !f && !e);
    switch (sv_choose(8)) {
    case 0: a = std::move(b); break;
    case 1: a.reset(); b.reset(nullptr); r.reset(); f.reset(); e.reset(); break;
    case 2: a = nullptr; b = nullptr; r = nullptr; f = nullptr; e = nullptr; break;
    case 3: { xmem::unique_ptr<D, Del<D>> d; a = std::move(d); } break;
    case 4: { xmem::shared_ptr<A0> s(std::move(a)); xmem::shared_ptr<A0> s2(std::move(r)); xmem::shared_ptr<A0> s3(std::move(f)); CHECK(!s && !s2 && !s3); } break;
    case 5: { xmem::shared_ptr<A0> s(nullptr, Del<A0>(tags[1])); xmem::shared_ptr<A0> t((A0*)nullptr, Del<A0>(tags[1])); s = t; CHECK(!s); } break;
    case 6: CHECK(a.release() == nullptr && b.release() == nullptr && r.release() == nullptr && f.release() == nullptr && e.release() == nullptr); break;
    case 7: a.swap(b); { auto& x = r; r.swap(x); auto& y = f; f.swap(y); } break;
    }
    CHECK(!a && !b && !r && !f && !e);
}
