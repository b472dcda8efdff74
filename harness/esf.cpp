// C12: shared_from_this / shared_from / weak_from_this / weak_from and the base-class (void) forms.
#include "world.h"
#ifndef FLAV
#define FLAV FA
#endif

struct X2 { uint64_t pad2 = 78; virtual ~X2() = default; };
template <class F> struct P {
    template <class T> using sp = typename F::template sp<T>;
    template <class T> using wp = typename F::template wp<T>;
    struct Obj;
    static inline void (*in_dtor)(Obj*);
    static inline void (*in_ctor)(Obj*);
    // the enabling base is neither first nor at offset 0
    struct Obj : Life<Obj>, X1, A0, F::esf {
        uint32_t mem = 6;
        wp<Obj> self;
        Obj() { if (in_ctor) in_ctor(this); }
        Obj(const Obj& o) : Life<Obj>(o), X1(o), A0(o.val), F::esf(o), mem(o.mem) {}
        Obj(Obj&& o) : Life<Obj>(o), X1(o), A0(o.val), F::esf(std::move(o)), mem(o.mem) {}
        Obj& operator=(const Obj& o) { F::esf::operator=(o); mem = o.mem; return *this; }
        Obj& operator=(Obj&& o) { F::esf::operator=(std::move(o)); mem = o.mem; return *this; }
        ~Obj() override { if (in_dtor) in_dtor(this); }
        auto sft() { return this->shared_from_this(); }
        auto csft() const { return this->shared_from_this(); }
        auto wft() { return this->weak_from_this(); }
        auto cwft() const { return this->weak_from_this(); }
        template <class T> auto sf(T* p) const { return this->shared_from(p); }
        template <class T> auto wf(T* p) const { return this->weak_from(p); }
    };
    // the template form; the enabled class is itself a base of the managed class
    struct T0 : X1, A0, F::template esft<T0> { uint32_t mem = 8; T0() = default; T0(const T0& o) : X1(o), A0(o.val), F::template esft<T0>(o) {} T0(T0&& o) : X1(o), A0(o.val), F::template esft<T0>(std::move(o)) {} };
    struct T1 : Life<T1>, X2, T0 { };
    struct Priv;
};

// everything an owned object can obtain; all have one owner more while held
template <class F> static void owned(typename P<F>::Obj* o, const void* cb, uint64_t cnt) {
    using O = typename P<F>::Obj;
    {
        auto a = o->sft(); static_assert(std::is_same_v<decltype(a), typename F::template sp<void>>);
        CHECK(a.get() == static_cast<void*>(o) && a.owner() == cb && uint64_t(a.use_count()) == cnt + 1);
        auto b = const_cast<const O*>(o)->csft(); static_assert(std::is_same_v<decltype(b), typename F::template sp<const void>>);
        CHECK(b.get() == static_cast<void*>(o) && b.owner() == cb && uint64_t(a.use_count()) == cnt + 2);
        auto c = o->sf(o); CHECK(c.get() == o && c.owner() == cb && uint64_t(a.use_count()) == cnt + 3);
        auto d = o->sf(static_cast<A0*>(o)); CHECK(d.get() == static_cast<A0*>(o) && d.owner() == cb);
        auto e = o->sf(&o->mem); CHECK(e.get() == &o->mem && *e == 6 && e.owner() == cb && uint64_t(e.use_count()) == cnt + 5);
        uint64_t adr = sv_u64();
        auto f = o->sf(reinterpret_cast<const char*>(adr)); CHECK(u(f.get()) == adr && f.owner() == cb && uint64_t(e.use_count()) == cnt + 6);
    }
    {
        auto a = o->wft(); static_assert(std::is_same_v<decltype(a), typename F::template wp<void>>);
        auto b = o->cwft(); static_assert(std::is_same_v<decltype(b), typename F::template wp<const void>>);
        auto c = o->wf(o);
        auto d = o->wf(static_cast<A0*>(o));
        auto e = o->wf(&o->mem);
        CHECK(a.owner() == cb && b.owner() == cb && c.owner() == cb && d.owner() == cb && e.owner() == cb);
        CHECK(uint64_t(a.use_count()) == cnt && !e.expired());
        CHECK(a.lock().get() == static_cast<void*>(o)); CHECK(b.lock().get() == static_cast<void*>(o));
        CHECK(c.lock().get() == o); CHECK(d.lock().get() == static_cast<A0*>(o)); CHECK(e.lock().get() == &o->mem);
    }
    CHECK(g.dead[o->id] == 0);
}
// what an object that is not owned (any more) can obtain: nothing
template <class F> static void unowned(typename P<F>::Obj* o) {
    using O = typename P<F>::Obj;
    CHECK(!o->sft() && !o->sft().owner());
    CHECK(!const_cast<const O*>(o)->csft() && !const_cast<const O*>(o)->csft().owner());
    CHECK(!o->sf(o) && !o->sf(o).owner());
    CHECK(!o->sf(&o->mem) && !o->sf(&o->mem).owner());
    CHECK(o->sf(&o->mem).use_count() == 0);
    CHECK(o->wft().expired() && o->cwft().expired() && o->wf(o).expired() && o->wf(&o->mem).expired());
    CHECK(!o->wft().lock() && !o->wf(o).lock());
}
// never owned: the weak forms have no owner at all
template <class F> static void never(typename P<F>::Obj* o) {
    unowned<F>(o);
    CHECK(!o->wft().owner() && !o->cwft().owner() && !o->wf(o).owner() && !o->wf(&o->mem).owner());
}

template <class F> static typename F::template sp<typename P<F>::Obj> create(int kind) {
    using O = typename P<F>::Obj;
    using SP = typename F::template sp<O>;
    switch (kind) {
    case 0: return F::template make<O>();
    case 1: return SP(new O);
    case 2: { xmem::unique_ptr<O> q(new O); return SP(std::move(q)); }
    case 3: return SP(new O, CountDel<O>(1));
    case 4: { SP s; s.reset(new O); return s; }
    case 5: { SP s; s = xmem::make_unique<O>(); return s; }
    default: return F::template make_ow<O>();
    }
}

template <class F> static void life() {
    using Q = P<F>;
    using O = typename Q::Obj;
    Q::in_ctor = [](O* o) { never<F>(o); };
    static const void* cb;
    static bool late_lock;
    static uint32_t xs, xw;
    static int dtors;
    Q::in_dtor = [](O* o) {
        ++dtors;
        unowned<F>(o);
        CHECK(o->wft().owner() == cb);      // still of the same owner, but expired
        CHECK(!o->self.lock());
    };
    typename F::template wp<O> w;
    {
        auto s = create<F>(int(sv_choose(7)));
        cb = s.owner();
        O* o = s.get();
        owned<F>(o, cb, 1);
        o->self = o->wf(o);
        // any number of owners
        Counter cs;
        sv_snap(cb);
        bool ok;
        { auto t = s; ok = cs.find(cb, 1); }
        if (ok) {
            xs = sv_u32();
            sv_assume(xs <= 0xFFFFFFFEu - 16);
            cs.set(1 + xs);
        }
        owned<F>(o, cb, uint64_t(1) + xs);
        w = s;
        CHECK(uint64_t(s.use_count()) == uint64_t(1) + xs);
        // through a pointer of another type, and after moves
        typename F::template sp<A0> b = std::move(s);
        owned<F>(o, cb, uint64_t(1) + xs);
        auto keep = o->sf(&o->mem);
        b.reset();
        owned<F>(o, cb, uint64_t(1) + xs);
        keep.reset();
        if (xs) {
            sv_reach("soft:others");
            owned<F>(o, cb, xs);
            sv_allow_leak();
            CHECK(dtors == 0);
            w.reset();
            return;
        }
        CHECK(dtors == 1 && g.dead[1] == 1);
    }
    CHECK(w.expired() && !w.lock());
    CHECK(sv_is_live(cb));
    w.reset();
    CHECK(!sv_is_live(cb));
}
ENTRY h_life() { life<FLAV>(); }

// the destructor obtains the first weak pointer of all, which outlives the object
template <class F> static void kept() {
    using Q = P<F>;
    using O = typename Q::Obj;
    static typename F::template wp<const void> k;
    static uint32_t form;
    form = sv_choose(4);
    Q::in_dtor = [](O* o) {
        if (form == 0) k = o->wft();
        else if (form == 1) k = const_cast<const O*>(o)->cwft();
        else if (form == 2) k = o->wf(o);
        else k = o->wf(&o->mem);
        CHECK(k.expired() && !k.lock());
    };
    auto s = create<F>(int(sv_choose(7)));
    const void* cb = s.owner();
    if (sv_choose(2)) { auto c = s; s.reset(); CHECK(g.dead[1] == 0 && !k.owner()); }
    s.reset();
    CHECK(g.dead[1] == 1);
    CHECK(k.owner() == cb && k.expired() && !k.lock() && k.use_count() == 0);
    CHECK(sv_is_live(cb));
    k.reset();
    CHECK(!sv_is_live(cb));
}
ENTRY h_kept() { kept<FLAV>(); }

// copies and assignments never transfer an association
template <class F> static void copies(int c) {
    using O = typename P<F>::Obj;
    {
        auto s = create<F>(int(sv_choose(3)));
        const void* cb = s.owner();
        switch (c) {
        case 0: { O t(*s); never<F>(&t); CHECK(t.mem == 6); } break;
        case 1: { O t; never<F>(&t); t = *s; never<F>(&t); } break;
        case 2: { O t; *s = t; never<F>(&t); } break;
        case 3:
            {
                auto t = create<F>(int(sv_choose(3)));
                const void* cb2 = t.owner();
                *t = *s;
                owned<F>(t.get(), cb2, 1);
                *s = std::move(*t);
                owned<F>(t.get(), cb2, 1);
            }
            break;
        case 4: { auto t = F::make_ptr(*s); CHECK(t.owner() != cb); owned<F>(t.get(), t.owner(), 1); } break;
        case 5: { auto t = F::make_ptr(std::move(*s)); CHECK(t.owner() != cb); owned<F>(t.get(), t.owner(), 1); s.reset(); owned<F>(t.get(), t.owner(), 1); return; } break;
        case 6: { auto& r = *s; *s = r; } break;
        case 8: { const O& c = *s; O t(std::as_const(c)); t = std::move(*s); never<F>(&t); O t2(std::move(t)); never<F>(&t); never<F>(&t2); *s = std::move(t2); } break;
        case 7: { O t(std::move(*s)); never<F>(&t); s.reset(); never<F>(&t); return; } break;
        }
        owned<F>(s.get(), cb, 1);
    }
    for (int i = 1; i <= g.n; ++i) CHECK(g.dead[i] == 1);
}
#define CP(n) ENTRY h_copy_##n() { copies<FLAV>(n); }
CP(0) CP(1) CP(2) CP(3) CP(4) CP(5) CP(6) CP(7) CP(8)

// objects that were never owned: automatic objects, plain and unique ownership, released before adoption
template <class F> static void notowned(int c) {
    using O = typename P<F>::Obj;
    switch (c) {
    case 0: { O o; never<F>(&o); } break;
    case 1: { auto o = new O; never<F>(o); delete o; } break;
    case 2: { xmem::unique_ptr<O> q(new O); never<F>(q.get()); auto r = std::move(q); never<F>(r.get()); r.reset(); } break;
    case 3: { typename F::template sp<O> s((O*)nullptr); CHECK(!s); typename F::template sp<O> t(nullptr, CountDel<O>(1)); CHECK(!t); xmem::unique_ptr<O> q; t = std::move(q); CHECK(!t); } break;
    case 4: // an alias of another owner does not own the object
        { O o; auto s = create<F>(0); typename F::template sp<O> al(s, &o); never<F>(&o); owned<F>(s.get(), s.owner(), 2); } break;
    }
    for (int i = 1; i <= g.n; ++i) CHECK(g.dead[i] == 1);
}
#define NW(n) ENTRY h_not_##n() { notowned<FLAV>(n); }
NW(0) NW(1) NW(2) NW(3) NW(4)

// adoption that fails leaves the object unowned
template <class F> static void failed() {
    using O = typename P<F>::Obj;
    xmem::unique_ptr<O> q(new O);
    typename F::template sp<O> s;
    sv_fault_arm(0);
    try { s = std::move(q); CHECK(false); } catch (std::bad_alloc&) { sv_reach("failed"); }
    sv_fault_disarm();
    never<F>(q.get());
    s = std::move(q);
    owned<F>(s.get(), s.owner(), 1);
}
ENTRY h_failed() { failed<FLAV>(); }

// the template form, reached through the base class that enables it
template <class F> static void tform() {
    using T0 = typename P<F>::T0;
    using T1 = typename P<F>::T1;
    typename F::template wp<T0> w;
    {
        typename F::template sp<T1> s;
        switch (sv_choose(3)) {
        case 0: s = F::template make<T1>(); break;
        case 1: s.reset(new T1); break;
        case 2: s = xmem::make_unique<T1>(); break;
        }
        T0* o = s.get();
        const T0* co = o;
        auto a = o->shared_from_this();
        static_assert(std::is_same_v<decltype(a), typename F::template sp<T0>>);
        CHECK(a.get() == o && a.owner() == s.owner() && s.use_count() == 2 && a->mem == 8);
        auto b = co->shared_from_this();
        static_assert(std::is_same_v<decltype(b), typename F::template sp<const T0>>);
        CHECK(b.get() == o && b.owner() == s.owner() && s.use_count() == 3);
        w = o->weak_from_this();
        auto cw = co->weak_from_this();
        static_assert(std::is_same_v<decltype(cw), typename F::template wp<const T0>>);
        CHECK(w.owner() == s.owner() && cw.owner() == s.owner() && s.use_count() == 3);
        CHECK(w.lock().get() == o && cw.lock().get() == o);
        s.reset(); a = nullptr;
        CHECK(b.use_count() == 1 && g.dead[1] == 0);
        T0 copy(*b);
        CHECK(!copy.shared_from_this() && !copy.weak_from_this().owner());
        T0 moved(std::move(const_cast<T0&>(*b)));
        CHECK(!moved.shared_from_this() && !moved.weak_from_this().owner());
        CHECK(co->shared_from_this() == b); CHECK(same_owner(co->shared_from_this(), b)); CHECK(b.use_count() == 1);
        auto c = co->shared_from_this();
        b.reset();
        CHECK(c.get() == o && c.use_count() == 1);
    }
    CHECK(g.dead[1] == 1 && w.expired());
    T0 t;
    const T0& ct = t;
    CHECK(!t.shared_from_this() && !t.weak_from_this() && !ct.shared_from_this() && !ct.weak_from_this());
}
ENTRY h_tform() { tform<FLAV>(); }

// ownership that ended without destroying the object, while a weak pointer keeps the control block
struct Nop { template <class T> void operator()(T*) const {} };
template <class F> static void survivor_weak() {
    using O = typename P<F>::Obj;
    O o;
    {
        typename F::template wp<void> w;
        {
            typename F::template sp<O> s(&o, Nop{});
            owned<F>(&o, s.owner(), 1);
            w = o.wft();
        }
        unowned<F>(&o);
        CHECK(w.expired());
        // owned again by somebody else
        typename F::template sp<O> s2(&o, Nop{});
        owned<F>(&o, s2.owner(), 1);
        s2.reset();
        s2 = typename F::template sp<O>(&o, Nop{});
        owned<F>(&o, s2.owner(), 1);
    }
}
ENTRY h_survivor_weak() { survivor_weak<FLAV>(); }
// known finding: nothing keeps the control block the object still refers to
template <class F> static void survivor(int c) {
    using O = typename P<F>::Obj;
    O o;
    {
        typename F::template sp<O> s(&o, Nop{});
        owned<F>(&o, s.owner(), 1);
    }
    switch (c) {
    case 0: CHECK(!o.sf(&o)); break;
    case 1: CHECK(o.wf(&o).expired()); break;
    }
}
ENTRY h_survivor_sf() { survivor<FLAV>(0); }
ENTRY h_survivor_wf() { survivor<FLAV>(1); }
