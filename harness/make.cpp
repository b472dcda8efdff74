// C20: creation helpers build exactly the requested object from exactly the arguments.
#include "world.h"
#include <initializer_list>

// records how each constructor argument arrived
struct Counts { int ctor = 0, dtor = 0; };
static Counts rc_;
struct Rec {
    int n = 0;
    int cat[4] = {};            // 1 lvalue, 2 const lvalue, 3 rvalue, 4 const rvalue
    const void* at[4] = {};
    template <class... X> explicit Rec(X&&... x) { ++rc_.ctor; (note(std::forward<X>(x)), ...); }
    Rec(Rec&) = delete; Rec(const Rec&) = delete; Rec(Rec&&) = delete;
    ~Rec() { ++rc_.dtor; }
    template <class X> void note(X&& x) {
        using R = std::remove_reference_t<X>;
        cat[n] = std::is_lvalue_reference_v<X> ? (std::is_const_v<R> ? 2 : 1) : (std::is_const_v<R> ? 4 : 3);
        at[n] = std::addressof(x);
        ++n;
    }
};
template <class F> struct MkShared { template <class T, class... X> static auto make(X&&... x) { return F::template make<T>(std::forward<X>(x)...); }
    template <class T> static auto make_ptr(T&& t) { return F::make_ptr(std::forward<T>(t)); }
    template <class T> static auto make_ow() { return F::template make_ow<T>(); } 
    template <class P> static void sole(const P& p) { CHECK(p.use_count() == 1); CHECK(p.owner() != nullptr); } };
struct MkUnique { template <class T, class... X> static auto make(X&&... x) { return xmem::make_unique<T>(std::forward<X>(x)...); }
    template <class T> static auto make_ptr(T&& t) { return xmem::make_unique_ptr(std::forward<T>(t)); }
    template <class T> static auto make_ow() { return xmem::make_unique_for_overwrite<T>(); }
    template <class P> static void sole(const P&) {} };

template <class M> static void forwarding() {
    int a = 1; const int b = 2; uint64_t c = 3; const char d = 4;
    {
        auto p = M::template make<Rec>();
        CHECK(rc_.ctor == 1 && rc_.dtor == 0 && p->n == 0);
        M::sole(p);
    }
    CHECK(rc_.dtor == 1);
    {
        auto p = M::template make<Rec>(a);
        CHECK(p->n == 1 && p->cat[0] == 1 && p->at[0] == &a);
    }
    {
        auto p = M::template make<Rec>(a, b, std::move(c), std::move(d));
        CHECK(p->n == 4);
        CHECK(p->cat[0] == 1 && p->cat[1] == 2 && p->cat[2] == 3 && p->cat[3] == 4);
        CHECK(p->at[0] == &a && p->at[1] == &b && p->at[2] == &c && p->at[3] == &d);
        M::sole(p);
    }
    {
        auto p = M::template make<Rec>(std::move(a), c, std::as_const(c));
        CHECK(p->cat[0] == 3 && p->cat[1] == 1 && p->cat[2] == 2);
        CHECK(p->at[0] == &a && p->at[1] == &c && p->at[2] == &c);
    }
    CHECK(rc_.ctor == 4 && rc_.dtor == 4);
}
ENTRY h_forward_shared() { forwarding<MkShared<FA>>(); }
ENTRY h_forward_local() { forwarding<MkShared<FL>>(); }
ENTRY h_forward_unique() { forwarding<MkUnique>(); }

// a value with counted copies and moves
struct Val {
    uint64_t v; uint32_t copies = 0, moves = 0; bool gone = false;
    explicit Val(uint64_t v) : v(v) { ++rc_.ctor; }
    Val(const Val& o) : v(o.v), copies(o.copies + 1), moves(o.moves), gone(o.gone) { ++rc_.ctor; }
    Val(Val&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1), gone(o.gone) { o.gone = true; ++rc_.ctor; }
    ~Val() { ++rc_.dtor; }
};
// movable like a unique_ptr; a copy is possible and shows
struct Mo { int* p; int copied = 0; explicit Mo(int* p) : p(p) {} Mo(std::nullptr_t) : p(nullptr) {} Mo(Mo&& o) noexcept : p(o.p), copied(o.copied) { o.p = nullptr; }
    Mo(const Mo& o) : p(o.p), copied(o.copied + 1) {} };
struct Agg { Val a; uint32_t x; uint64_t& r; const Val& cr; Mo mo;
    Agg(Val a_, uint32_t x, uint64_t& r, const Val& cr, Mo mo) : a(std::move(a_)), x(x), r(r), cr(cr), mo(std::move(mo)) {} };
template <class M> static void values() {
    uint64_t v1 = sv_u64(), v2 = sv_u64(), ext = sv_u64(); uint32_t x = sv_u32();
    {
        Val a(v1), b(v2);
        int target = int(x);
        Mo mo(&target);
        int* raw = mo.p;
        auto p = M::template make<Agg>(a, x, ext, b, std::move(mo));
        CHECK(p->a.v == v1 && p->a.copies == 1 && p->a.moves == 1 && !a.gone && a.v == v1 && a.copies == 0);
        CHECK(p->x == x && &p->r == &ext && &p->cr == &b && p->mo.p == raw && p->mo.copied == 0 && !mo.p);
        p->r = v2; CHECK(ext == v2);
        M::sole(p);
        auto q = M::template make<Agg>(std::move(a), x + 1, ext, std::as_const(b), nullptr);
        CHECK(q->a.v == v1 && q->a.copies == 0 && q->a.moves == 2 && a.gone && q->x == uint32_t(x + 1) && !q->mo.p);
        CHECK(q.get() != p.get());
        auto r = M::template make<uint32_t>(x); CHECK(*r == x);
        auto t = M::template make<uint64_t>(); CHECK(*t == 0);                  // value-initialised
        auto z = M::template make<void*>(); CHECK(*z == nullptr);
        M::sole(r); M::sole(t);
    }
    CHECK(rc_.ctor == rc_.dtor);
}
ENTRY h_values_shared() { values<MkShared<FA>>(); }
ENTRY h_values_local() { values<MkShared<FL>>(); }
ENTRY h_values_unique() { values<MkUnique>(); }

// arguments that can only be moved, and narrowing ones (direct, not list, initialisation)
struct Only { std::unique_ptr<int> p; uint16_t w; Only(std::unique_ptr<int> p, uint16_t w) : p(std::move(p)), w(w) {} };
template <class M> static void moveonly() {
    uint32_t x = sv_u32();
    std::unique_ptr<int> mo(new int(int(x)));
    int* raw = mo.get();
    auto p = M::template make<Only>(std::move(mo), uint16_t(x));
    CHECK(p->p.get() == raw && !mo && p->w == uint16_t(x));
    auto w = M::make_ptr(std::unique_ptr<int>(new int(4))); CHECK(**w == 4);
    M::sole(p); M::sole(w);
}
ENTRY h_moveonly_shared() { moveonly<MkShared<FA>>(); }
ENTRY h_moveonly_local() { moveonly<MkShared<FL>>(); }
ENTRY h_moveonly_unique() { moveonly<MkUnique>(); }
template <class M> static void narrowing() {
    uint32_t x = sv_u32();
    auto s = M::template make<uint16_t>(x); CHECK(*s == uint16_t(x));
    M::sole(s);
}
ENTRY h_narrow_shared() { narrowing<MkShared<FA>>(); }
ENTRY h_narrow_local() { narrowing<MkShared<FL>>(); }
ENTRY h_narrow_unique() { narrowing<MkUnique>(); }

// parentheses, not braces
struct IL { int which; int a = 0; IL(int a, int) : which(1), a(a) {} IL(std::initializer_list<int>) : which(2) {} IL() : which(3) {} };
struct Triv { uint32_t a; uint64_t b; uint8_t c[5]; };
struct Mixed { uint32_t a; struct S { int k; S() : k(41) {} } s; };      // implicit default constructor: value-initialisation zeroes a
template <class M> static void forms() {
    int k = int(sv_u32());
    auto p = M::template make<IL>(k, 5); CHECK(p->which == 1 && p->a == k);
    auto q = M::template make<IL>(); CHECK(q->which == 3);
    auto r = M::template make<IL>(std::initializer_list<int>{1, 2}); CHECK(r->which == 2);
    auto t = M::template make<Triv>(); CHECK(t->a == 0 && t->b == 0 && t->c[0] == 0 && t->c[4] == 0);
    auto m = M::template make<Mixed>(); CHECK(m->a == 0 && m->s.k == 41);
    Triv x{uint32_t(k), sv_u64(), {1, 2, 3, 4, 5}};
    auto y = M::template make<Triv>(x); CHECK(y->a == x.a && y->b == x.b && y->c[4] == 5 && y.get() != &x);
    M::sole(p); M::sole(t); M::sole(y);
}
ENTRY h_forms_shared() { forms<MkShared<FA>>(); }
ENTRY h_forms_local() { forms<MkShared<FL>>(); }
ENTRY h_forms_unique() { forms<MkUnique>(); }

// make_*_ptr: one object, copied from an lvalue, moved from an rvalue
template <class M> static void from_value() {
    uint64_t v = sv_u64();
    {
        Val a(v);
        rc_ = {1, 0};
        auto p = M::make_ptr(a);
        static_assert(std::is_same_v<std::decay_t<decltype(*p)>, Val>);
        CHECK(rc_.ctor == 2 && rc_.dtor == 0);
        CHECK(p->v == v && p->copies == 1 && p->moves == 0 && !a.gone && p.get() != &a);
        M::sole(p);
        auto q = M::make_ptr(std::move(a));
        CHECK(rc_.ctor == 3 && rc_.dtor == 0);
        CHECK(q->v == v && q->copies == 0 && q->moves == 1 && a.gone);
        M::sole(q);
        auto r = M::make_ptr(Val(v + 1));
        CHECK(rc_.ctor == 5 && rc_.dtor == 1);
        CHECK(r->v == v + 1 && r->copies == 0 && r->moves == 1);
        uint32_t x = sv_u32();
        auto s = M::make_ptr(x); CHECK(*s == x); *s = 5; CHECK(&*s != &x);
        auto t = M::make_ptr(x + 0); CHECK(*t == x);
        M::sole(s);
    }
    CHECK(rc_.ctor == rc_.dtor);
}
ENTRY h_from_shared() { from_value<MkShared<FA>>(); }
ENTRY h_from_local() { from_value<MkShared<FL>>(); }
ENTRY h_from_unique() { from_value<MkUnique>(); }
// const lvalues are copied as well
ENTRY h_from_const_unique() {
    const Val a(sv_u64());
    auto p = xmem::make_unique_ptr(a);
    static_assert(std::is_same_v<decltype(p), xmem::unique_ptr<const Val>>);
    CHECK(p->v == a.v && p->copies == 1 && p->moves == 0);
    auto q = xmem::make_unique_ptr(std::move(a));
    CHECK(q->v == a.v && q->copies == 1);
}

// for_overwrite: the default constructor runs, nothing else is initialised
template <class M> static void overwrite() {
    auto m = M::template make_ow<Mixed>();
    CHECK(m->s.k == 41);
    CHECK(sv_uninit(&m->a, 4));
    auto t = M::template make_ow<Triv>();
    CHECK(sv_uninit(t.get(), sizeof(Triv)));
    auto q = M::template make_ow<IL>(); CHECK(q->which == 3);
    auto p = M::template make_ow<uint64_t>(); CHECK(sv_uninit(p.get(), 8));
    *p = 9; t->b = 7; CHECK(*p.get() == 9 && t->b == 7);
    M::sole(m); M::sole(t); M::sole(q); M::sole(p);
}
ENTRY h_overwrite_shared() { overwrite<MkShared<FA>>(); }
ENTRY h_overwrite_local() { overwrite<MkShared<FL>>(); }
ENTRY h_overwrite_unique() { overwrite<MkUnique>(); }

// arrays
static int ec, ed;
struct Elem { uint32_t a; struct S { int k; S() : k(17) { ++ec; } ~S() { ++ed; } } s; };
#ifndef N
#define N 4
#endif
ENTRY h_array() {
    uint32_t n = sv_choose(N + 1);
    {
        auto p = xmem::make_unique<uint32_t[]>(n);
        CHECK(p.get() != nullptr && bool(p));
        CHECK(sv_objsize(p.get()) == n * 4);
        for (uint32_t i = 0; i < n; ++i) CHECK(p[i] == 0 && &p[i] == p.get() + i);
        uint32_t j = sv_pick(N + 1); uint32_t v = sv_u32();
        for (uint32_t i = 0; i < n; ++i) if (i == j) { p[i] = v; CHECK(p.get()[j] == v); }
        auto e = xmem::make_unique<Elem[]>(n);
        CHECK(ec == int(n) && ed == 0);
        for (uint32_t i = 0; i < n; ++i) CHECK(e[i].a == 0 && e[i].s.k == 17);
        e.reset();
        CHECK(ed == int(n));
        ec = ed = 0;
        auto o = xmem::make_unique_for_overwrite<Elem[]>(n);
        CHECK(ec == int(n) && ed == 0);
        for (uint32_t i = 0; i < n; ++i) { CHECK(o[i].s.k == 17); CHECK(sv_uninit(&o[i].a, 4)); }
        auto w = xmem::make_unique_for_overwrite<uint64_t[]>(n);
        CHECK(sv_objsize(w.get()) == n * 8);
        for (uint32_t i = 0; i < n; ++i) CHECK(sv_uninit(&w[i], 8));
        auto f = xmem::make_unique<double[]>(n);
        for (uint32_t i = 0; i < n; ++i) CHECK(reinterpret_cast<const uint64_t&>(f[i]) == 0);
    }
    CHECK(ec == ed && ec == int(n));
}
ENTRY h_array_oversized() {       // a length whose size overflows is refused, not truncated
    uint64_t n = sv_u64();
    sv_assume(n > (uint64_t(1) << 61));
    bool thrown = false;
    try { auto p = xmem::make_unique<uint64_t[]>(n); (void)p; }
    catch (const std::bad_alloc&) { thrown = true; }
    CHECK(thrown);
}

// accessors designate that object
template <class M> static void accessors() {
    auto p = M::template make<Triv>();
    p->a = 7;
    CHECK(&*p == p.get() && &p->a == &p.get()->a && (*p).a == 7 && bool(p));
    auto q = M::template make<D>(55u);
    CHECK(q->val == 55 && (*q).val == 55 && q.get() == &*q);
    const auto cp = std::move(q);
    CHECK(cp->val == 55 && &*cp == cp.get() && bool(cp));
}
ENTRY h_access_shared() { accessors<MkShared<FA>>(); }
ENTRY h_access_local() { accessors<MkShared<FL>>(); }
ENTRY h_access_unique() { accessors<MkUnique>(); }
ENTRY h_access_index() {
    uint32_t arr[4] = {1, 2, 3, 4};
    auto own = xmem::make_shared<int>(1);
    using AP = xmem::shared_ptr<uint32_t[]>;
    AP s(AP::cb_ptr_pair_type(nullptr, arr));
    CHECK(bool(s) && s.get() == arr && no_owner(s));
    for (uint32_t i = 0; i < 4; ++i) CHECK(&s[i] == &arr[i]);
    xmem::shared_ptr<uint32_t> t(own, arr);
    for (uint32_t i = 0; i < 4; ++i) CHECK(&t[i] == &arr[i]);
    CHECK(own.use_count() == 2);
}
// an index of any size is used in full
struct NoDel { template <class T> void operator()(T*) const {} };
ENTRY h_access_far() {
    uint64_t base = sv_u64(), i = sv_u64();
    sv_assume(base >= 4096 && base < (uint64_t(1) << 40) && base % 8 == 0 && i < (uint64_t(1) << 40));
    auto c = reinterpret_cast<char*>(base);
    auto q = reinterpret_cast<uint64_t*>(base);
    xmem::shared_ptr<char> s(xmem::shared_ptr<char>(), c);
    xmem::local_shared_ptr<uint64_t> l(xmem::local_shared_ptr<uint64_t>(), q);
    CHECK(reinterpret_cast<uint64_t>(&s[i]) == base + i);
    CHECK(reinterpret_cast<uint64_t>(&l[i]) == base + i * 8);
    xmem::unique_ptr<char[], NoDel> u(c);
    xmem::unique_ptr<uint64_t[], NoDel> v(q);
    CHECK(reinterpret_cast<uint64_t>(&u[i]) == base + i);
    CHECK(reinterpret_cast<uint64_t>(&v[i]) == base + i * 8);
}
// helpers for objects that enable shared pointers to themselves
struct Esf : xmem::enable_shared_from { uint32_t v; Esf(uint32_t v) : v(v) {} auto me() { return shared_from(this); } };
struct EsfL : xmem::enable_local_shared_from { uint32_t v; EsfL(uint32_t v) : v(v) {} auto me() { return shared_from(this); } };
template <class F, class E> static void esf() {
    uint32_t v = sv_u32();
    auto p = F::template make<E>(v);
    CHECK(p->v == v && p.use_count() == 1);
    auto m = p->me();
    CHECK(m.get() == p.get() && p.use_count() == 2);
    m.reset();
    E stack(v);
    auto q = F::make_ptr(stack);           // a copy of an unowned object
    CHECK(q->v == v && q.use_count() == 1 && q->me().get() == q.get() && !stack.me());
    auto r = F::make_ptr(*p);              // a copy of an owned object has its own owner
    CHECK(r->v == v && r.use_count() == 1 && r.owner() != p.owner() && r->me().owner() == r.owner() && p.use_count() == 1);
    auto s = F::make_ptr(std::move(*p));
    CHECK(s->v == v && s.use_count() == 1 && s->me().owner() == s.owner() && p->me().owner() == p.owner());
}
ENTRY h_esf() { esf<FA, Esf>(); }
ENTRY h_esf_local() { esf<FL, EsfL>(); }
