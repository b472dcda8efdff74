// C05: sources that live inside what the assignment releases, and destructors that use the target.
#include "world.h"
#ifndef FLAV
#define FLAV FA
#endif

template <class F> struct R {
    struct N;
    template <class T> using sp = typename F::template sp<T>;
    template <class T> using wp = typename F::template wp<T>;
    static inline void (*hook)(uint32_t) = nullptr;
    static const int MAXN = 16;
    static inline uint8_t dead[MAXN];
    static inline uint32_t made = 0;

    struct B0 {
        uint32_t id = ++made;
        uint32_t mark = id * 7 + 1;
        virtual ~B0() { CHECK(mark == id * 7 + 1); }
    };
    struct N : Life<N>, X1, B0 {
        sp<N> next;
        sp<B0> bnext;
        wp<N> w;
        xmem::unique_ptr<N> u;
        ~N() override {
            CHECK(dead[this->id] == 0);
            ++dead[this->id];
            if (hook) hook(this->id);
        }
    };
    static sp<N> mk(int kind) {
        switch (kind) {
        case 0: return F::template make<N>();
        case 1: return sp<N>(new N);
        default: { xmem::unique_ptr<N> u(new N); return sp<N>(std::move(u)); }
        }
    }
};

// ---- reference counting ghost over named slots
struct Cnt {
    static const int MAXS = 16;
    int slot[MAXS] = {};       // object id held by each slot (0: none)
    int home[MAXS] = {};       // object the slot lives in (0: the harness)
    int ns = 0;
    bool dead[16] = {};
    int add(int holds, int lives) { slot[ns] = holds; home[ns] = lives; return ns++; }
    int count(int id) const { int c = 0; for (int i = 0; i < ns; ++i) if (slot[i] == id && !(home[i] && dead[home[i]])) ++c; return c; }
    void settle(int n) {
        for (bool ch = true; ch;) {
            ch = false;
            for (int i = 1; i <= n; ++i) if (!dead[i] && count(i) == 0) { dead[i] = true; ch = true; }
        }
    }
};

// chain 1 -> 2 -> 3 -> 4 through `next` or `bnext`; the source of the operation is the pointer held by node d
template <class F> static void chain(int op, bool viab) {
    using r = R<F>;
    using N = typename r::N; using B0 = typename r::B0;
#ifdef DEEP
    const int n = 6;
#else
    const int n = 4;
#endif
    {
        typename F::template sp<N> head, extra[4];
        typename F::template sp<B0> bhead;
        N* raw[8] = {};
        Cnt c;
        int kind = int(sv_choose(3));
        {
            typename F::template sp<N> nodes[8];
            for (int i = 1; i <= n; ++i) { nodes[i] = r::mk(i == 2 ? kind : 0); raw[i] = nodes[i].get(); CHECK(int(raw[i]->id) == i); }
            for (int i = 1; i < n; ++i) { if (viab) raw[i]->bnext = nodes[i + 1]; else raw[i]->next = nodes[i + 1]; }
            head = nodes[1];
            if (viab) bhead = nodes[1];
            if (sv_choose(2)) extra[1] = nodes[1];
            if (sv_choose(2)) extra[2] = nodes[2];
        }
        int hs = c.add(1, 0), bs = c.add(viab ? 1 : 0, 0);
        int link[8] = {};
        for (int i = 1; i < n; ++i) link[i] = c.add(i + 1, i);
        link[n] = c.add(0, n);
        c.add(extra[1] ? 1 : 0, 0); c.add(extra[2] ? 2 : 0, 0);
        const int d = int(sv_choose(uint32_t(n))) + 1;     // source: pointer held by node d (the last one holds null)
        auto verify = [&] {
            c.settle(n);
            for (int i = 1; i <= n; ++i) CHECK(r::dead[i] == (c.dead[i] ? 1 : 0));
            CHECK(head.get() == (c.slot[hs] ? raw[c.slot[hs]] : nullptr));
            CHECK(head.use_count() == (c.slot[hs] ? c.count(c.slot[hs]) : 0));
            CHECK(bhead.get() == (c.slot[bs] ? static_cast<B0*>(raw[c.slot[bs]]) : nullptr));
            CHECK(bhead.use_count() == (c.slot[bs] ? c.count(c.slot[bs]) : 0));
            for (int i = 1; i <= 2; ++i) if (extra[i]) CHECK(extra[i].use_count() == c.count(i));
        };
        verify();
        switch (op) {
        case 0: // copy
            if (viab) { head.reset(); c.slot[hs] = 0; bhead = raw[d]->bnext; c.slot[bs] = c.slot[link[d]]; }
            else { head = raw[d]->next; c.slot[hs] = c.slot[link[d]]; }
            break;
        case 1: // move
            if (viab) { head.reset(); c.slot[hs] = 0; bhead = std::move(raw[d]->bnext); c.slot[bs] = c.slot[link[d]]; }
            else { head = std::move(raw[d]->next); c.slot[hs] = c.slot[link[d]]; }
            c.slot[link[d]] = 0;
            break;
        case 2: // converting copy from inside
            if (viab) return;
            bhead = raw[d]->next; c.slot[bs] = c.slot[link[d]]; verify();
            head.reset(); c.slot[hs] = 0; verify();
            if (bhead) { auto& src = static_cast<N*>(bhead.get())->next; int id = c.slot[bs]; c.slot[bs] = c.slot[link[id]]; bhead = src; }
            break;
        case 3: // converting move from inside
            if (viab) return;
            bhead = head; c.slot[bs] = 1; head = nullptr; c.slot[hs] = 0; verify();
            bhead = std::move(raw[d]->next); c.slot[bs] = c.slot[link[d]]; c.slot[link[d]] = 0;
            break;
        case 4: // alias of an owner inside
            if (viab) return;
            head = typename F::template sp<N>(raw[d]->next, c.slot[link[d]] ? raw[c.slot[link[d]]] : nullptr); c.slot[hs] = c.slot[link[d]];
            break;
        case 5: // weak pointer inside
            raw[d]->w = raw[d]->next;
            if (viab) return;
            head = raw[d]->w.lock(); c.slot[hs] = c.slot[link[d]];
            break;
        case 6: // unique_ptr inside
            {
                if (viab) return;
                head = nullptr; c.slot[hs] = 0; verify();
                if (!extra[1]) return;
                auto t = std::move(extra[1]); extra[2].reset();
                t->u.reset(new N);            // object n + 1
                N* inner = t->u.get();
                if (sv_choose(2)) t->next.reset();
                t = std::move(t->u);
                CHECK(t.get() == inner && t.use_count() == 1);
                for (int i = 1; i <= n; ++i) CHECK(r::dead[i] == 1);
                CHECK(r::dead[n + 1] == 0);
                return;
            }
        case 7: // reset of everything
            head.reset(); c.slot[hs] = 0; verify(); bhead.reset(); c.slot[bs] = 0;
            break;
        case 8: // swap with a pointer inside; then the cycle is broken
            if (viab) return;
            head.swap(raw[d]->next); std::swap(c.slot[hs], c.slot[link[d]]);
            verify();
            if (!c.dead[d]) { auto keep = std::move(raw[d]->next); c.slot[link[d]] = 0; keep.reset(); }
            break;
        default: break;
        }
        verify();
    }
    for (uint32_t i = 1; i <= r::made; ++i) CHECK(r::dead[i] == 1);
}
#define CHAIN(n) ENTRY h_chain_##n() { chain<FLAV>(n, false); }
CHAIN(0) CHAIN(1) CHAIN(2) CHAIN(3) CHAIN(4) CHAIN(5) CHAIN(6) CHAIN(7) CHAIN(8)
ENTRY h_chainb_0() { chain<FLAV>(0, true); }
ENTRY h_chainb_1() { chain<FLAV>(1, true); }

// ---- destructors that use the target
template <class F> struct H {
    using r = R<F>;
    using N = typename r::N; using B0 = typename r::B0;
    static inline typename F::template sp<B0>* t;
    static inline typename F::template sp<B0>* s;
    static inline typename F::template sp<N>* q;      // pointer of the derived type
    static inline typename F::template wp<B0>* w;     // always refers to object 1
    static inline typename F::template sp<B0>* keep;
    static inline int act1, act2;
    static inline B0* expect;         // what the target must show when object 1 goes
    static inline bool check_expect;
    static inline long expect_count;
    static inline int runs;
    static void act(int a) {
        using SB = typename F::template sp<B0>;
        switch (a) {
        case 1: t->reset(); break;
        case 2: *t = *s; break;
        case 3: *s = *t; break;
        case 4: *t = std::move(*s); break;
        case 5: t->swap(*s); break;
        case 6: *t = F::template make<N>(); break;
        case 7: { SB c(*t); CHECK(c.get() == t->get()); CHECK(c.use_count() == t->use_count()); } break;
        case 8: t->reset(new N); break;
        case 9: *t = xmem::unique_ptr<N>(new N); break;
        case 10: *keep = std::move(*t); break;
        case 11: *t = nullptr; *t = *keep; break;
        case 12: *t = *q; break;
        default: break;
        }
    }
    static void hook(uint32_t id) {
        if (id == 1) {
            ++runs;
            if (check_expect) {
                CHECK(t->get() == expect);
                if (expect_count >= 0) CHECK(t->use_count() == expect_count);
            }
            CHECK(w->expired());
            CHECK(!w->lock());
            act(act1);
        }
        else if (id == 2 && act2) act(act2);
    }
};
template <class F> static void hooked(int op) {
    using h = H<F>;
    using r = R<F>;
    using N = typename r::N; using B0 = typename r::B0;
    using SB = typename F::template sp<B0>;
    {
        SB t, s, keep;
        typename F::template sp<N> q;
        typename F::template wp<B0> w;
        h::t = &t; h::s = &s; h::w = &w; h::keep = &keep; h::q = &q;
        t = r::mk(int(sv_choose(3)));          // 1
        w = t;
        q = F::template make<N>();             // 2
        s = q;
        if (sv_choose(2)) q.reset();
        B0* o2 = s.get();
        long c2 = s.use_count();
        h::act1 = int(sv_choose(13));
        #ifdef DEEP
        h::act2 = int(sv_choose(13));
#else
        h::act2 = int(sv_choose(3)) == 1 ? 1 : 0;
#endif
        h::runs = 0;
        r::hook = h::hook;
        h::check_expect = true;
        h::expect = nullptr; h::expect_count = 0;
        switch (op) {
        case 0: h::expect = o2; h::expect_count = c2 + 1; t = s; break;
        case 1: h::expect = o2; h::expect_count = c2; t = std::move(s); break;
        case 2: h::expect = q.get(); h::expect_count = q ? c2 + 1 : 0; t = q; break;
        case 3: h::expect = q.get(); h::expect_count = q ? c2 : 0; t = std::move(q); break;
        case 4: t.reset(); break;
        case 5: t = nullptr; break;
        case 6: { auto p = new N; h::expect = p; h::expect_count = 1; t.reset(p); } break;
        case 7: { auto p = new N; h::expect = p; h::expect_count = 1; t.reset(p, CountDel<N>(2)); } break;
        case 8: { xmem::unique_ptr<N> u(new N); h::expect = u.get(); h::expect_count = 1; t = std::move(u); } break;
        case 9: { xmem::unique_ptr<N, CountDel<N>> u(new N, CountDel<N>(2)); h::expect = u.get(); h::expect_count = 1; t = std::move(u); } break;
        case 10: { N* a = static_cast<N*>(o2); h::expect = a; h::expect_count = c2 + 1; t = SB(s, a); } break;
        case 11: h::expect_count = 0; t = SB(); break;
        case 12: t.reset(nullptr); break;
        case 13: { SB x; x.swap(t); h::expect_count = 0; } break;
        default: break;
        }
        CHECK(h::runs == 1);
        h::check_expect = false;
        r::hook = nullptr;
        // whatever happened: every object is alive exactly if some slot holds it, and every count is right
        SB* all[3] = {&t, &s, &keep};
        for (uint32_t id = 1; id <= r::made; ++id) {
            long n = 0;
            for (auto p : all) if (*p && (*p)->id == id) ++n;
            if (q && q->id == id) ++n;
            CHECK(r::dead[id] == (n ? 0 : 1));
            for (auto p : all) if (*p && (*p)->id == id) CHECK(p->use_count() == n);
            if (q && q->id == id) CHECK(q.use_count() == n);
        }
        sv_obs(r::made); sv_obs(uint64_t(t.use_count())); sv_obs(uint64_t(s.use_count()));
    }
    for (uint32_t i = 1; i <= r::made; ++i) CHECK(r::dead[i] == 1);
}
#define HK(n) ENTRY h_hook_##n() { hooked<FLAV>(n); }
HK(0) HK(1) HK(2) HK(3) HK(4) HK(5) HK(6) HK(7) HK(8) HK(9) HK(10) HK(11) HK(12) HK(13)
