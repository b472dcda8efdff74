// C22: helpers for std pointers.
#include "sv.h"
#include <xmem/std_helpers.hpp>

static int alive, dead_;
struct B0 { uint64_t b = 3; virtual ~B0() = default; };
struct B1 { uint32_t v; explicit B1(uint32_t v = 0) : v(v) { ++alive; } B1(const B1& o) : v(o.v) { ++alive; } virtual ~B1() { ++dead_; } };
struct DD : B0, B1 { uint32_t m = 9; explicit DD(uint32_t v = 0) : B1(v) {} };

// a shared pointer in every owner/alias configuration; returns owner number (0: none) and use count expected from it
struct Src { std::shared_ptr<DD> root[2]; std::shared_ptr<B1> p; int own = 0; int extra = 0; };
static char pad_[64];
static void mk(Src& s, std::shared_ptr<B1>& p, int& own) {
    switch (sv_choose(6)) {
    case 0: own = 0; break;                                                             // empty
    case 1: { std::shared_ptr<DD> e; p = std::shared_ptr<B1>(e, reinterpret_cast<B1*>(sv_u64())); own = 0; } break; // no owner, any address
    case 2: p = s.root[0]; own = 1; break;
    case 3: p = s.root[1]; own = 2; break;
    case 4: p = std::shared_ptr<B1>(s.root[0], reinterpret_cast<B1*>(sv_u64())); own = 1; break; // owner, any address (null too)
    default: p = std::shared_ptr<B1>(s.root[1], s.root[0].get()); own = 2; break;
    }
}
static void roots(Src& s) {
    s.root[0] = std::make_shared<DD>(sv_u32());
    s.root[1] = std::shared_ptr<DD>(new DD(sv_u32()));
}
ENTRY h_make_aliased() {
    {
        Src s; roots(s);
        std::shared_ptr<B1> p; int own = 0;
        mk(s, p, own);
        uint64_t raw = sv_u64();
        uint64_t pg = u(p.get()); long pu = p.use_count();
        std::shared_ptr<uint32_t> a = xstd::make_aliased(p, reinterpret_cast<uint32_t*>(raw));
        CHECK(u(p.get()) == pg);
        if (own) {
            sv_reach("owner");
            CHECK(u(a.get()) == raw && a.use_count() == pu + 1 && p.use_count() == pu + 1);
            CHECK(!a.owner_before(s.root[own - 1]) && !s.root[own - 1].owner_before(a));
            std::weak_ptr<DD> w(s.root[own - 1]);
            p.reset(); s.root[0].reset(); s.root[1].reset();
            CHECK(a.use_count() == 1 && !w.expired() && dead_ == 1);
            a.reset();
            CHECK(w.expired() && dead_ == 2);
        } else {
            sv_reach("no owner");
            CHECK(a.get() == nullptr && a.use_count() == 0 && p.use_count() == 0);
            std::shared_ptr<int> e;
            CHECK(!a.owner_before(e) && !e.owner_before(a));
        }
    }
    CHECK(dead_ == 2 && alive == 2);
}
ENTRY h_same_owner() {
    Src s; roots(s);
    std::shared_ptr<B1> p, q0; int op = 0, oq = 0;
    mk(s, p, op);
    mk(s, q0, oq);
    std::shared_ptr<void> q(q0);
    std::weak_ptr<B1> wp(p); std::weak_ptr<void> wq(q);
    long up = p.use_count(), uq = q.use_count();
    bool same = op == oq;
    CHECK(xstd::same_owner(p, q) == same && xstd::same_owner(q, p) == same);
    CHECK(xstd::same_owner(p, p) && xstd::same_owner(q, q));
    CHECK(xstd::same_owner(wp, wq) == same && xstd::same_owner(wq, wp) == same);
    CHECK(xstd::same_owner(wp, q) == same && xstd::same_owner(p, wq) == same);
    CHECK(xstd::same_owner(wp, p) && xstd::same_owner(q, wq));
    CHECK(xstd::no_owner(p) == (op == 0) && xstd::no_owner(q) == (oq == 0));
    CHECK(xstd::no_owner(wp) == (op == 0) && xstd::no_owner(wq) == (oq == 0));
    CHECK(p.use_count() == up && q.use_count() == uq);
    // expired weak pointers keep their owner
    p.reset(); q.reset(); q0.reset();
    s.root[0].reset(); s.root[1].reset();
    CHECK(dead_ == 2);
    CHECK(xstd::same_owner(wp, wq) == same && xstd::same_owner(wq, wp) == same);
    CHECK(xstd::no_owner(wp) == (op == 0) && xstd::no_owner(wq) == (oq == 0));
    CHECK(xstd::same_owner(wp, p) == (op == 0) && xstd::same_owner(p, wp) == (op == 0));
    if (op && op == oq) sv_reach("same");
}
struct Val {
    uint64_t v; int copies = 0, moves = 0; bool gone = false;
    explicit Val(uint64_t v) : v(v) { ++alive; }
    Val(const Val& o) : v(o.v), copies(o.copies + 1), moves(o.moves) { ++alive; }
    Val(Val&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.gone = true; ++alive; }
    ~Val() { ++dead_; }
};
ENTRY h_make_ptr() {
    uint64_t v = sv_u64();
    {
        Val a(v);
        auto p = xstd::make_shared_ptr(a);
        static_assert(std::is_same_v<decltype(p), std::shared_ptr<Val>>);
        CHECK(alive == 2 && p->v == v && p->copies == 1 && p->moves == 0 && !a.gone && p.use_count() == 1 && p.get() != &a);
        auto q = xstd::make_shared_ptr(std::move(a));
        CHECK(alive == 3 && q->v == v && q->copies == 0 && q->moves == 1 && a.gone && q.use_count() == 1);
        Val b(v + 1);
        auto r = xstd::make_unique_ptr(b);
        static_assert(std::is_same_v<decltype(r), std::unique_ptr<Val>>);
        CHECK(alive == 5 && r->v == v + 1 && r->copies == 1 && r->moves == 0 && !b.gone);
        auto t = xstd::make_unique_ptr(std::move(b));
        CHECK(alive == 6 && t->v == v + 1 && t->copies == 0 && t->moves == 1 && b.gone);
        const Val c(v + 2);
        auto x = xstd::make_unique_ptr(c);
        static_assert(std::is_same_v<decltype(x), std::unique_ptr<const Val>>);
        CHECK(x->v == v + 2 && x->copies == 1 && x->moves == 0);
        auto y = xstd::make_shared_ptr(c);
        CHECK(y->v == v + 2 && y->copies == 1);
        auto z = xstd::make_shared_ptr(std::unique_ptr<int>(new int(4)));
        CHECK(**z == 4);
        uint32_t k = sv_u32();
        CHECK(*xstd::make_shared_ptr(k) == k && *xstd::make_unique_ptr(k + 1) == k + 1);
        CHECK(dead_ == 0);
    }
    CHECK(dead_ == alive);
}
ENTRY h_make_ptr_fault() {
    uint64_t v = sv_u64();
    {
        Val a(v);
        int form = sv_choose(4);
        sv_fault_arm(0);
        bool thrown = false;
        try {
            switch (form) {
            case 0: xstd::make_shared_ptr(a); break;
            case 1: xstd::make_shared_ptr(std::move(a)); break;
            case 2: xstd::make_unique_ptr(a); break;
            default: xstd::make_unique_ptr(std::move(a)); break;
            }
        } catch (const std::bad_alloc&) { thrown = true; }
        sv_fault_disarm();
        CHECK(thrown && !a.gone && alive == 1 && dead_ == 0);
    }
}
// shared-from helpers: members are protected, so a derived class exposes them
struct Me : B0, xstd::enable_shared_from {
    uint32_t v, w = 8; B1 part;
    explicit Me(uint32_t v) : v(v) {}
    using xstd::enable_shared_from::shared_from_this;
    using xstd::enable_shared_from::weak_from_this;
    using xstd::enable_shared_from::shared_from;
    using xstd::enable_shared_from::weak_from;
};
ENTRY h_shared_from() {
    {
        std::shared_ptr<Me> p;
        int form = sv_choose(4);
        uint32_t v = sv_u32();
        Me* raw;
        switch (form) {
        case 0: p = std::make_shared<Me>(v); break;
        case 1: p.reset(new Me(v)); break;
        case 2: p = xstd::make_shared_ptr(Me(v)); break;
        default: p = std::shared_ptr<Me>(std::unique_ptr<Me>(new Me(v))); break;
        }
        raw = p.get();
        uint32_t more = sv_choose(3);
        std::shared_ptr<Me> ex[2];
        for (uint32_t i = 0; i < more; ++i) ex[i] = p;
        long n = 1 + more;
        CHECK(p.use_count() == n);
        const Me& cm = *raw;
        xstd::enable_shared_from* base = raw;
        std::shared_ptr<void> a; std::shared_ptr<const void> ca; std::weak_ptr<void> wa; std::weak_ptr<const void> wca;
        std::shared_ptr<uint32_t> f; std::weak_ptr<uint32_t> wf; std::shared_ptr<const B1> fb; std::shared_ptr<Me> fm;
        uint64_t any = sv_u64();
        switch (sv_choose(8)) {
        case 0: a = raw->shared_from_this(); CHECK(a.get() == static_cast<void*>(base) && xstd::same_owner(a, p) && p.use_count() == n + 1); break;
        case 1: ca = cm.shared_from_this(); CHECK(ca.get() == static_cast<void*>(base) && xstd::same_owner(ca, p) && p.use_count() == n + 1); break;
        case 2: wa = raw->weak_from_this(); CHECK(xstd::same_owner(wa, p) && p.use_count() == n && wa.lock().get() == static_cast<void*>(base)); break;
        case 3: wca = cm.weak_from_this(); CHECK(xstd::same_owner(wca, p) && p.use_count() == n && wca.lock().get() == static_cast<void*>(base)); break;
        case 4: f = raw->shared_from(&raw->w); CHECK(f.get() == &raw->w && xstd::same_owner(f, p) && p.use_count() == n + 1); break;
        case 5: wf = raw->weak_from(&raw->w); CHECK(xstd::same_owner(wf, p) && p.use_count() == n && wf.lock().get() == &raw->w); break;
        case 6: fb = cm.shared_from<const B1>(&cm.part); fm = raw->shared_from(raw);
            CHECK(fb.get() == &raw->part && fm.get() == raw && xstd::same_owner(fb, p) && xstd::same_owner(fm, p) && p.use_count() == n + 2); break;
        default: f = cm.shared_from(reinterpret_cast<uint32_t*>(any)); CHECK(u(f.get()) == any && xstd::same_owner(f, p) && p.use_count() == n + 1); break;
        }
        CHECK(raw->v == v);
        p.reset(); ex[0].reset(); ex[1].reset();
        bool held = a || ca || fb || fm || f.use_count();
        CHECK(dead_ == (form == 2 ? 1 : 0) + (held ? 0 : 1));
        CHECK(wa.expired() && wf.expired() && wca.expired());
    }
    CHECK(dead_ == alive);
}
// an object without an owner
ENTRY h_shared_from_unowned() {
    Me m(sv_u32());
    CHECK(m.weak_from_this().expired());
    CHECK(std::as_const(m).weak_from_this().expired());
    int thrown = 0;
    try { auto p = m.shared_from_this(); } catch (const std::bad_weak_ptr&) { ++thrown; }
    try { auto p = m.shared_from(&m); } catch (const std::bad_weak_ptr&) { ++thrown; }
    CHECK(thrown == 2);
}
