// C16 (and the sequential part of C15 and C22): atomic pointer storages used by the destructors that their own
// operations trigger.  XS=0: xmem storage, XS=1: the helper for std pointers.
#include "sv.h"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/std_helpers.hpp>
#ifndef K
#define K 2
#endif
#ifndef XS
#define XS 0
#endif
#if XS == 0
template <class T> using sp = xmem::shared_ptr<T>;
template <class T> using wp = xmem::weak_ptr<T>;
template <class T> using stor = xmem::atomic_shared_ptr_storage<T>;
template <class T> static sp<T> mk() { return xmem::make_shared<T>(); }
#else
template <class T> using sp = std::shared_ptr<T>;
template <class T> using wp = std::weak_ptr<T>;
template <class T> using stor = xstd::atomic_shared_ptr_storage<T>;
template <class T> static sp<T> mk() { return std::make_shared<T>(); }
#endif

static const int MAXO = 24;
static int made;
static uint8_t gone[MAXO];
struct O;
static void (*hook)(O*);
struct O : Life<O> {
    int id = ++made;
    sp<O> link;              // released with the object
    ~O() { CHECK(gone[id] == 0); ++gone[id]; if (hook) hook(this); }
};

static stor<O>* st;
static sp<O>* sx; static sp<O>* sy;
static int act1;
static int depth, runs;
static void use(int a) {
    switch (a) {
    case 0: { auto p = st->load(); CHECK(!p || gone[p->id] == 0); } break;
    case 1: st->store(mk<O>()); break;
    case 2: st->store(nullptr); break;
    case 3: { auto p = st->exchange(nullptr); CHECK(!p || gone[p->id] == 0); } break;
    case 4: { auto p = st->exchange(mk<O>()); CHECK(!p || gone[p->id] == 0); } break;
    case 5: { sp<O> e; st->compare_exchange(e, mk<O>()); } break;
    case 6: { auto e = st->load(); CHECK(st->compare_exchange(e, nullptr)); } break;
    case 7: { auto e = mk<O>(); CHECK(!st->compare_exchange(e, nullptr)); CHECK(e == st->load()); } break;
    }
}
static void hk(O* o) {
    ++runs;
    if (depth < 2) { ++depth; use(act1); --depth; }
}

// one operation, whose release of an object runs a destructor that uses the storage
static void op(int k) {
    sp<O> a = mk<O>(), b = mk<O>();
    int ia = a->id, ib = b->id;
    (void)ia; (void)ib;
    stor<O> s(a);
    st = &s; sx = &a; sy = &b;
    act1 = int(sv_choose(8));
    hook = hk;
    switch (k) {
    case 0: a.reset(); s.store(b); CHECK(runs >= 1); break;
    case 1: a.reset(); s.store(std::move(b)); CHECK(runs >= 1); break;
    case 2: a.reset(); s.store(nullptr); CHECK(runs >= 1); break;
    case 3: { a.reset(); auto r = s.exchange(std::move(b)); CHECK(r->id == 1 && r.use_count() == 1); CHECK(runs == 0); r.reset(); CHECK(runs >= 1); } break;
    case 4: // successful compare_exchange releases nothing here, then the last reference to the old object goes
        { auto e = a; a.reset(); CHECK(s.compare_exchange(e, b)); CHECK(e->id == 1 && e.use_count() == 1 && runs == 0); e.reset(); CHECK(runs >= 1); }
        break;
    case 5: // failed: the object that `expect` held goes
        { sp<O> e = mk<O>(); int ie = e->id; CHECK(!s.compare_exchange(e, b)); CHECK(e && gone[ie] == 1); CHECK(e.get() == a.get()); CHECK(runs >= 1); }
        break;
    case 6: // failed: the desired object goes with the argument
        { sp<O> e = b; CHECK(!s.compare_exchange(e, mk<O>())); CHECK(e == a); CHECK(runs >= 1); }
        break;
    case 7: // successful, the storage held the last reference (an alias of the expected address that owns nothing)
        { O* raw = a.get(); sp<O> none; sp<O> e(none, raw); a.reset(); CHECK(s.compare_exchange(e, b)); CHECK(runs >= 1); CHECK(gone[1] == 1); }
        break;
    case 8: // the storage itself goes
        { a.reset(); auto q = new stor<O>(mk<O>()); st = &s; delete q; CHECK(runs >= 1); }
        break;
    case 9: // chains: the released object releases another one
        { a->link = mk<O>(); a->link->link = mk<O>(); a.reset(); s.store(b); CHECK(runs >= 3); }
        break;
    case 10: // empty storage
        { a.reset(); s.store(nullptr); sp<O> e = mk<O>(); CHECK(!s.compare_exchange(e, b) || true); }
        break;
    }
    hook = nullptr;
    // the storage is unlocked and consistent
    auto cur = s.load();
    for (int i = 1; i <= made; ++i) {
        bool held = (cur && cur->id == i) || (a && a->id == i) || (b && b->id == i);
        CHECK(gone[i] == (held ? 0 : 1));
    }
    s.store(cur);
    CHECK(s.load() == cur);
    auto e = cur;
    CHECK(s.compare_exchange(e, a));
    CHECK(s.exchange(nullptr) == a);
    CHECK(!s.load());
    sv_obs(uint64_t(made)); sv_obs(uint64_t(runs));
}
#define OP(n) ENTRY h_op_##n() { op(n); for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1); }
OP(0) OP(1) OP(2) OP(3) OP(4) OP(5) OP(6) OP(7) OP(8) OP(9) OP(10)

// ---- bounded histories compared with a plain register holding (object, owner)
struct V { int id = 0; bool owns = true; };       // id 0: null
struct Reg {
    stor<O> s;
    V gs;
    sp<O> x, y, e;
    V gx, gy, ge;
    static V own(int id) { return V{id, true}; }
    void is(const sp<O>& p, V v) {
        CHECK(bool(p) == (v.id != 0));
        if (v.id && v.owns) CHECK(p->id == v.id);
        long n = 0;
        if (v.id && v.owns) { for (V* q : {&gs, &gx, &gy, &ge}) if (q->id == v.id && q->owns) ++n; CHECK(p.use_count() == n); }
    }
    void verify() {
        is(x, gx); is(y, gy); is(e, ge);
        { auto l = s.load(); CHECK(l ? gs.id != 0 && l->id == gs.id : gs.id == 0); }
        is(x, gx);
        for (int i = 1; i <= made; ++i) {
            bool h = gs.id == i || gx.id == i || gy.id == i || ge.id == i;
            CHECK(gone[i] == (h ? 0 : 1));
        }
    }
    void cas(sp<O>& d, V& gd, bool mv) {
        bool want = ge.id == gs.id;
        bool r = mv ? s.compare_exchange(e, std::move(d)) : s.compare_exchange(e, d);
        CHECK(r == want);
        if (r) gs = gd; else ge = gs;
        if (mv) { CHECK(!d); gd = V{}; }
    }
    void step(uint32_t k) {
        switch (k) {
        case 0: s.store(x); gs = gx; break;
        case 1: s.store(std::move(y)); gs = gy; gy = V{}; CHECK(!y); break;
        case 2: x = s.load(); gx = gs; break;
        case 3: y = s.exchange(std::move(x)); gy = gs; gs = gx; gx = V{}; break;
        case 4: x = s.exchange(y); gx = gs; gs = gy; break;
        case 5: cas(x, gx, false); break;
        case 6: cas(y, gy, true); break;
        case 7: e = s.load(); ge = gs; break;
        case 8: e = x; ge = gx; break;
        case 9: e.reset(); ge = V{}; break;
        case 10: x = mk<O>(); gx = own(made); break;
        case 11: y = mk<O>(); gy = own(made); break;
        case 12: s.store(nullptr); gs = V{}; break;
        case 13: { auto t = s.exchange(mk<O>()); CHECK(t ? t->id == gs.id : gs.id == 0); gs = own(made); } break;
        case 14: { auto t = s.load(); CHECK(!s.compare_exchange(t, t) ? false : true); } break;
        case 15: cas(e, ge, false); break;
        default: break;
        }
    }
};
static void hist(int cfg) {
    {
        Reg r;
        if (cfg == 1) { r.step(10); r.step(0); r.step(11); r.step(7); }
        if (cfg == 2) { r.step(13); r.step(10); r.step(8); }
        r.verify();
        for (int i = 0; i < K; ++i) { r.step(sv_choose(16)); r.verify(); }
        sv_obs(uint64_t(made));
    }
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
ENTRY h_hist_0() { hist(0); }
ENTRY h_hist_1() { hist(1); }
ENTRY h_hist_2() { hist(2); }
#if XS == 0
// the single-threaded flavour of the storage template, and aliases: only the stored address counts
ENTRY h_alias() {
    auto a = mk<O>();
    auto b = mk<O>();
    sp<O> al(b, a.get());           // address of a, owner b
    stor<O> s(a);
    sp<O> e = al;
    CHECK(s.compare_exchange(e, al));
    CHECK(e.owner() == b.owner());
    auto l = s.load();
    CHECK(l.get() == a.get() && l.owner() == b.owner() && a.use_count() == 1 && b.use_count() == 5);
    e.reset(); l.reset(); al.reset();
    CHECK(b.use_count() == 2);
    uint64_t x = sv_u64(), y = sv_u64();
    sp<O> none;
    s.store(sp<O>(none, reinterpret_cast<O*>(x)));
    CHECK(b.use_count() == 1);
    sp<O> exp(none, reinterpret_cast<O*>(y));
    bool r = s.compare_exchange(exp, b);
    CHECK(r == (x == y));
    if (r) { sv_reach("soft:swapped"); CHECK(s.load() == b); }
    else { sv_reach("soft:kept"); CHECK(exp.get() == reinterpret_cast<O*>(x) && s.load().get() == exp.get() && b.use_count() == 1); }
    s.store(nullptr);
}
ENTRY h_local() {
    xmem::basic_atomic_shared_ptr_storage<xmem::local_control_block_factory, int> s;
    CHECK(!s.load());
    auto p = xmem::make_local_shared<int>(4);
    s.store(p);
    CHECK(p.use_count() == 2);
    auto e = p;
    CHECK(s.compare_exchange(e, xmem::make_local_shared<int>(5)));
    CHECK(p.use_count() == 2 && *s.load() == 5);
    CHECK(!s.compare_exchange(e, nullptr));
    CHECK(*e == 5 && p.use_count() == 1);
    CHECK(*s.exchange(p) == 5);
    CHECK(p.use_count() == 2);
}
#endif
