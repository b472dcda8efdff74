// C04: weak pointers that are used while the object is being destroyed, that live inside objects, or that outlive them.
#include "world.h"

template <class F> struct Node : Life<Node<F>>, A0 {
    typename F::template wp<Node> w;
    typename F::template sp<Node> s;
    int action = 0;
    typename F::template wp<Node>* ext = nullptr;
    typename F::template wp<A0>* extb = nullptr;
    Node() = default;
    explicit Node(uint32_t v) : A0(v) {}
    template <class W> static void dead(const W& x) {
        CHECK(x.expired() && x.use_count() == 0 && !x.lock() && x.lock().owner() == nullptr);
    }
    ~Node() override {
        using W = typename F::template wp<Node>;
        if (!ext) return;
        W& e = *ext;
        dead(e);
        const void* o = e.owner();
        switch (action) {
        case 0: break;
        case 1: { W c(e); dead(c); CHECK(c.owner() == o && same_owner(c, e)); } break;
        case 2: { W c(std::move(e)); dead(c); CHECK(c.owner() == o && !e.owner()); e = std::move(c); CHECK(e.owner() == o); } break;
        case 3: w = e; dead(w); break;                        // a member takes it: dies with the object
        case 4: e.reset(); CHECK(!e.owner()); break;
        case 5: { typename F::template wp<A0> c(e); dead(c); *extb = c; CHECK(extb->owner() == o); } break;
        case 6: { typename F::template wp<uint32_t> c(e, &this->val); dead(c); CHECK(c.owner() == o); } break;
        case 7: { W c; c.swap(e); dead(c); CHECK(c.owner() == o); e = c; } break;
        case 8: e = e; dead(e); e = std::move(e); dead(e); CHECK(e.owner() == o); break;
        case 9: { auto l = e.lock(); typename F::template sp<Node> k(l); CHECK(!k && e.use_count() == 0); e = W(k); CHECK(!e.owner()); } break;
        default: w = std::move(e); dead(w); CHECK(!e.owner()); break;
        }
        CHECK(this->val == g.val[this->id]);
    }
};
template <class F> static typename F::template sp<Node<F>> create(int k) {
    uint32_t v = sv_u32();
    switch (k) {
    case 0: return F::template make<Node<F>>(v);
    case 1: return typename F::template sp<Node<F>>(new Node<F>(v));
    default: return typename F::template sp<Node<F>>(new Node<F>(v), CountDel<Node<F>>(1));
    }
}
// while the destructor runs
template <class F> static void dtor() {
    {
        auto p = create<F>(sv_choose(3));
        typename F::template wp<Node<F>> e(p);
        typename F::template wp<A0> b;
        p->ext = &e; p->extb = &b; p->action = sv_choose(11);
        uint32_t id = p->id;
        if (sv_choose(2)) p->w = p;                         // it also holds a weak pointer to itself
        uint32_t how = sv_choose(3);
        if (how == 0) p.reset();
        else if (how == 1) { auto q = p; p = nullptr; CHECK(g.dead[id] == 0); auto l = e.lock(); CHECK(l == q && l.use_count() == 2); q = nullptr; l = nullptr; }
        else { auto q = std::move(p); q = create<F>(sv_choose(2)); p = q; }
        CHECK(g.dead[id] == 1);
        CHECK(e.expired() && b.expired() && !e.lock() && !b.lock() && e.use_count() == 0);
        sv_reach("destroyed");
    }
    for (int i = 1; i <= g.n; ++i) CHECK(g.dead[i] == 1);
}
// weak pointers inside objects: to itself, to each other, chains, and the last weak reference inside a destroyed object
template <class F> static void inside() {
    {
        using SP = typename F::template sp<Node<F>>;
        SP a = create<F>(sv_choose(3)), b = create<F>(sv_choose(2));
        uint32_t ia = a->id, ib = b->id;
        switch (sv_choose(4)) {
        case 0: a->w = a; b->w = b; break;
        case 1: a->w = b; b->w = a; break;
        case 2: a->s = b; b->w = a; break;                  // parent and child
        default: a->w = b; break;
        }
        CHECK(a.use_count() == 1);
        bool child = bool(a->s);
        typename F::template wp<Node<F>> wa, wb;
        if (sv_choose(2)) { wa = a; wb = a->w; }
        if (sv_choose(2)) {
            a.reset();
            CHECK(g.dead[ia] == 1 && g.dead[ib] == 0 && !wa.lock());
            CHECK(b.use_count() == 1);
            if (b->w.owner()) { auto l = b->w.lock(); CHECK(!l || l == b); }
            b.reset();
        } else {
            b.reset();
            CHECK(g.dead[ib] == (child ? 0 : 1) && g.dead[ia] == 0);
            auto l = a->w.lock();
            CHECK(!l || l->id == ia);
            if (child) { CHECK(a->s->w.lock() == a); CHECK(a.use_count() == (l ? 2 : 1)); }
            l.reset();
            a.reset();
        }
        CHECK(g.dead[ia] == 1 && g.dead[ib] == 1);
        CHECK(wa.expired() && wb.expired() && !wa.lock() && !wb.lock());
    }
    sv_reach("inside");
}
// every weak operation on an expired pointer whose object's memory is gone
#ifndef K
#define K 2
#endif
template <class F> static void expired() {
    {
        auto p = create<F>(sv_choose(3));
        typename F::template wp<Node<F>> w[2];
        typename F::template wp<A0> b;
        w[0] = p; w[1] = p; b = p;
        auto q = create<F>(0);
        const void* co = p.owner();
        p.reset();
        const void* o[3] = {co, co, co};
        for (int i = 0; i < K; ++i) {
            int x = sv_choose(2), y = 1 - x;
            switch (sv_choose(11)) {
            case 0: w[x] = w[y]; o[x] = o[y]; break;
            case 1: w[x] = std::move(w[y]); o[x] = o[y]; o[y] = nullptr; break;
            case 2: w[x].swap(w[y]); std::swap(o[x], o[y]); break;
            case 3: b = w[x]; o[2] = o[x]; break;
            case 4: b = std::move(w[x]); o[2] = o[x]; o[x] = nullptr; break;
            case 5: w[x].reset(); o[x] = nullptr; break;
            case 6: w[x] = w[x]; break;
            case 7: w[x] = q; o[x] = q.owner(); break;
            case 8: { typename F::template wp<uint32_t> c(w[x], reinterpret_cast<uint32_t*>(sv_u64())); CHECK(c.owner() == o[x]); } break;
            case 9: { typename F::template wp<Node<F>> c(w[x]); w[y] = c; o[y] = o[x]; } break;
            default: w[x] = std::move(w[x]); break;
            }
            for (int k = 0; k < 2; ++k) {
                CHECK(w[k].owner() == o[k]);
                bool al = o[k] && o[k] == q.owner();
                CHECK(w[k].expired() == !al && w[k].use_count() == (al ? 1 : 0));
                auto l = w[k].lock();
                CHECK(bool(l) == al && (!al || l == q));
            }
            CHECK(b.owner() == o[2]);
            auto l = b.lock();
            CHECK(l.owner() == (o[2] == q.owner() ? o[2] : nullptr));
        }
    }
    CHECK(g.dead[1] == 1 && g.dead[2] == 1);
}
ENTRY h_dtor() { dtor<FLAV>(); }
ENTRY h_inside() { inside<FLAV>(); }
ENTRY h_expired() { expired<FLAV>(); }
