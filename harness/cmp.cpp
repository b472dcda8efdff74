// C18: comparisons, ownership order, streaming; stored addresses and control block addresses are symbolic.
#include "world.h"
#include <xmem/ostream.hpp>

template <class T> static T* any() { return reinterpret_cast<T*>(sv_u64()); }
#define ORDER(a, b, x, y) \
    CHECK((a == b) == (x == y)); CHECK((a != b) == (x != y)); \
    CHECK((a < b) == (x < y)); CHECK((a <= b) == (x <= y)); \
    CHECK((a > b) == (x > y)); CHECK((a >= b) == (x >= y));

template <class P, class Q> static void ordered(const P& a, const Q& b) {
    uint64_t x = u(a.get()), y = u(b.get());
    ORDER(a, b, x, y)
    ORDER(b, a, y, x)
    ORDER(a, a, x, x)
    CHECK(bool(a) == (x != 0));
    CHECK(bool(b) == (y != 0));
}
// shared pointers that own nothing but store any address
template <class F, class T, class U> static void shared_cmp() {
    typename F::template sp<A0> none;
    typename F::template sp<T> a(none, any<T>());
    typename F::template sp<U> b(none, any<U>());
    ordered(a, b);
    CHECK(no_owner(a) && no_owner(b) && same_owner(a, b) && !a.owner_before(b) && !b.owner_before(a));
}
ENTRY h_cmp_shared() { shared_cmp<FA, int, int>(); }
ENTRY h_cmp_shared_cv() { shared_cmp<FA, int, const int>(); }
ENTRY h_cmp_shared_local() { shared_cmp<FL, A0, A0>(); }
ENTRY h_cmp_shared_base() {
    FA::sp<A0> none;
    D* d = reinterpret_cast<D*>(sv_u64());
    sv_assume(u(d) % 16 == 0 && u(d) > 4096 && u(d) < (uint64_t(1) << 47));
    FA::sp<D> a(none, d);
    FA::sp<A0> b(none, any<A0>());
    A0* ad = d;
    ORDER(a, b, u(ad), u(b.get()))
    ORDER(b, a, u(b.get()), u(ad))
}
ENTRY h_cmp_mixed_flavours() {
    FA::sp<A0> n1; FL::sp<A0> n2;
    FA::sp<int> a(n1, any<int>());
    FL::sp<int> b(n2, any<int>());
    ordered(a, b);
}
// unique pointers of all kinds, holding any address
struct NoDel { template <class T> void operator()(T*) const {} };
static void nofn(int*) {}
ENTRY h_cmp_unique() {
    NoDel nd;
    xmem::unique_ptr<int, NoDel> a(any<int>());
    xmem::unique_ptr<int, NoDel&> b(any<int>(), nd);
    xmem::unique_ptr<int, void (*)(int*)> c(any<int>(), &nofn);
    xmem::unique_ptr<const int, NoDel> d(any<int>());
    xmem::unique_ptr<int[], NoDel> e(any<int>()), f(any<int>());
    ordered(a, b); ordered(b, c); ordered(c, d); ordered(a, d); ordered(e, f); ordered(a, e);
}
// transitivity of the order, from agreement on every pair of three
ENTRY h_cmp_trans() {
    FA::sp<A0> none;
    FA::sp<int> a(none, any<int>()), b(none, any<int>()), c(none, any<int>());
    CHECK(!(a < b && b < c) || a < c);
    CHECK((a < b) + (b < a) + (a == b) == 1);
    CHECK((a <= b) == !(b < a));
}

// ---- owners at arbitrary addresses: control blocks that live nowhere and do nothing
struct FakeCB {
    void init_strong(const void*) noexcept {}
    void inc_strong_ref(const void*) noexcept {}
    void dec_strong_ref(const void*) noexcept {}
    bool inc_strong_ref_nz(const void*) noexcept { return true; }
    long strong_ref_count() const noexcept { return 1; }
    void transfer_strong(const void*, const void*) {}
    void inc_weak_ref(const void*) noexcept {}
    void dec_weak_ref(const void*) noexcept {}
    void transfer_weak(const void*, const void*) {}
};
struct FF { using cb_type = FakeCB; };
template <class T> using fsp = xmem::basic_shared_ptr<FF, T>;
template <class T> using fwp = xmem::basic_weak_ptr<FF, T>;
template <class T> using pr = xmem::cb_ptr_pair<FakeCB, T>;

template <class P, class Q> static void eqv(const P& a, const Q& b) {
    bool ab = a.owner_before(b), ba = b.owner_before(a);
    bool same = a.owner() == b.owner();
    CHECK(!(ab && ba));
    CHECK((!ab && !ba) == same);            // equivalence is exactly same_owner
    CHECK(same_owner(a, b) == same);
    CHECK(same_owner(b, a) == same);
    CHECK(ab == (u(a.owner()) < u(b.owner())));
    CHECK(no_owner(a) == (a.owner() == nullptr));
    CHECK(no_owner(b) == (b.owner() == nullptr));
    CHECK(!a.owner_before(a));
}
ENTRY h_owner() {
    auto c1 = any<FakeCB>(), c2 = any<FakeCB>();
    fsp<int> s(pr<int>(c1, any<int>()));
    fsp<double> t(pr<double>(c2, any<double>()));
    CHECK(s.owner() == c1 && s.t_owner() == c1 && t.owner() == c2);
    fwp<int> w{pr<int>(c1, any<int>())};
    fwp<double> v{pr<double>(c2, any<double>())};
    eqv(s, t); eqv(s, s);
    eqv(w, v); eqv(w, w);
    fsp<int> s2(pr<int>(c1, any<int>()));
    eqv(s, s2); CHECK(same_owner(s, s2));
    fsp<int> t2(pr<int>(c2, s.get()));      // the stored pointer does not matter
    eqv(s, t2); CHECK(same_owner(t, t2));
    CHECK(bool(w) == (c1 != nullptr));
}
ENTRY h_owner_mixed() {
    auto c1 = any<FakeCB>(), c2 = any<FakeCB>();
    fsp<int> s(pr<int>(c1, any<int>()));
    fwp<double> v{pr<double>(c2, any<double>())};
    // weak before shared is a member of weak_ptr
    CHECK(v.owner_before(s) == (u(c2) < u(c1)));
    CHECK(same_owner(s, v) == (c1 == c2));
    CHECK(same_owner(v, s) == (c1 == c2));
    fwp<int> w(s);
    CHECK(same_owner(w, s) && same_owner(s, w) && !w.owner_before(s));
    CHECK(w.owner_before(v) == (u(c1) < u(c2)));
    CHECK(v.owner_before(w) == (u(c2) < u(c1)));
    CHECK(no_owner(w) == no_owner(s));
    CHECK(no_owner(v) == (c2 == nullptr));
}
// strict weak order of three owners
ENTRY h_owner_trans() {
    auto c1 = any<FakeCB>(), c2 = any<FakeCB>(), c3 = any<FakeCB>();
    fsp<int> a(pr<int>(c1, any<int>())), b(pr<int>(c2, any<int>())), c(pr<int>(c3, any<int>()));
    CHECK(!(a.owner_before(b) && b.owner_before(c)) || a.owner_before(c));
    CHECK(!(!a.owner_before(b) && !b.owner_before(a) && !b.owner_before(c) && !c.owner_before(b)) || (!a.owner_before(c) && !c.owner_before(a)));
    fwp<int> x{pr<int>(c1, any<int>())}, y{pr<int>(c2, any<int>())}, z{pr<int>(c3, any<int>())};
    CHECK(!(x.owner_before(y) && y.owner_before(z)) || x.owner_before(z));
    CHECK(!(x.owner_before(b) && y.owner_before(c) && c1 < c2) || x.owner_before(c) || true);
}
// real owners, through copies, aliases, conversions and expiry
template <class F> static void real() {
    auto a = F::template make<D>(); auto b = F::template make<D>();
    typename F::template sp<A0> ca(a);
    typename F::template sp<char> al(a, reinterpret_cast<char*>(sv_u64()));
    typename F::template wp<A0> wa(a); typename F::template wp<D> wb(b);
    typename F::template sp<A0> none;
    typename F::template wp<A0> wnone;
    typename F::template sp<char> nal(none, reinterpret_cast<char*>(sv_u64()));
    CHECK(same_owner(a, ca) && same_owner(a, al) && same_owner(al, wa) && same_owner(wa, ca) && !same_owner(a, b) && !same_owner(wa, wb) && !same_owner(wb, a));
    CHECK(!a.owner_before(al) && !al.owner_before(ca) && !wa.owner_before(al));
    CHECK(a.owner_before(b) != b.owner_before(a));
    CHECK(wa.owner_before(wb) == a.owner_before(b));
    CHECK(same_owner(none, nal) && same_owner(wnone, none) && !same_owner(a, none) && !same_owner(wnone, wa));
    CHECK(no_owner(none) && no_owner(nal) && no_owner(wnone) && !no_owner(a) && !no_owner(al) && !no_owner(wa));
    CHECK(none.owner_before(a) != a.owner_before(none));
    a.reset(); ca.reset();
    CHECK(same_owner(al, wa) && wa.owner() == al.owner() && !no_owner(wa));
    al.reset();
    CHECK(wa.expired() && !no_owner(wa) && !same_owner(wa, wnone) && !same_owner(wa, none));
    auto l = wa.lock();
    CHECK(no_owner(l) && same_owner(l, none));
}
ENTRY h_owner_real() { real<FA>(); }
ENTRY h_owner_real_local() { real<FL>(); }

// ---- streaming writes exactly the stored pointer and returns the stream
ENTRY h_stream() {
    std::ostream& os = *static_cast<std::ostream*>(sv_ostream());
    FA::sp<A0> none; FL::sp<A0> lnone;
    uint64_t v[6];
    for (auto& x : v) x = sv_u64();
    FA::sp<void> s(none, reinterpret_cast<void*>(v[0]));
    FL::sp<int> l(lnone, reinterpret_cast<int*>(v[1]));
    xmem::unique_ptr<int, NoDel> q(reinterpret_cast<int*>(v[2]));
    NoDel nd;
    xmem::unique_ptr<const A0, NoDel&> r(reinterpret_cast<A0*>(v[3]), nd);
    xmem::unique_ptr<int[], NoDel> e(reinterpret_cast<int*>(v[4]));
    auto d = FA::make<D>();
    FA::sp<A0> db(d);
    auto& o2 = (os << s);
    CHECK(&o2 == &os);
    os.write(" ", 1);
    CHECK(&(os << l) == &os); os.write(" ", 1);
    CHECK(&(os << q) == &os); os.write(" ", 1);
    CHECK(&(os << r) == &os); os.write(" ", 1);
    CHECK(&(os << e) == &os); os.write(" ", 1);
    CHECK(&(os << db) == &os); os.write(" ", 1);
    CHECK(&(os << none) == &os);
    CHECK(sv_streamed_count() == 7);
    for (int i = 0; i < 5; ++i) CHECK(sv_streamed(i) == v[i]);
    CHECK(sv_streamed(5) == u(static_cast<A0*>(d.get())));
    CHECK(sv_streamed(6) == 0);
    CHECK(d.use_count() == 2);
}
