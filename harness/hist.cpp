// Bounded histories: every sequence of K public operations over a small set of strong and weak pointer slots,
// compared with the reference model after every operation and after the final teardown (two orders).
#include "world.h"
#ifndef FLAV
#define FLAV FA
#endif
#ifndef K
#define K 2
#endif

template <class F> struct Hist {
    template <class T> using sp = typename F::template sp<T>;
    template <class T> using wp = typename F::template wp<T>;
    sp<A0> s[2];
    sp<D> q;
    wp<A0> w;
    wp<D> v;
    G gs[2], gq, gw, gv;
    const void* cb[MAXO] = {};
    int strong[MAXO] = {}, weak[MAXO] = {};
    uint64_t d_of[MAXO] = {};     // address of the D object, 0 for an A

    template <class T> void vs(const sp<T>& p, const G& gh) {
        CHECK(u(p.get()) == gh.p);
        CHECK(p.owner() == cb[gh.own]);
        CHECK(p.use_count() == (gh.own ? strong[gh.own] : 0));
    }
    template <class T> void vw(const wp<T>& p, const G& gh) {
        CHECK(p.owner() == cb[gh.own]);
        CHECK(p.use_count() == (gh.own ? strong[gh.own] : 0));
        CHECK(p.expired() == (!gh.own || !strong[gh.own]));
        {
            auto l = p.lock();
            CHECK(u(l.get()) == (gh.own && strong[gh.own] ? gh.p : 0));
        }
    }
    void verify() {
        vs(s[0], gs[0]); vs(s[1], gs[1]); vs(q, gq); vw(w, gw); vw(v, gv);
        for (int i = 1; i <= g.n; ++i) {
            CHECK(g.dead[i] == (strong[i] == 0));
            if (cb[i]) CHECK(sv_is_live(cb[i]) == (strong[i] || weak[i]));
        }
    }
    void chg(G& gh, G to) {
        if (to.own) ++strong[to.own];
        if (gh.own) --strong[gh.own];
        gh = to;
    }
    void chgw(G& gh, G to) {
        if (to.own) ++weak[to.own];
        if (gh.own) --weak[gh.own];
        gh = to;
    }
    // move: to takes from's value, from becomes empty
    void mov(G& to, G& from, uint64_t p) {
        G x{from.own, p};
        from = G{};
        if (to.own) --strong[to.own];
        to = x;
    }
    void movw(G& to, G& from, uint64_t p) {
        G x{from.own, p};
        from = G{};
        if (to.own) --weak[to.own];
        to = x;
    }
    static uint64_t up(uint64_t d) { return d ? u(static_cast<A0*>(reinterpret_cast<D*>(d))) : 0; }

    template <class T> void fresh(sp<T>& slot, G& gh, bool isd) {
        int id = g.n;
        // the object was created and its pointer stored; the slot's former value is gone
        const A0* a = static_cast<const A0*>(g.at[id]);
        if (gh.own) --strong[gh.own];
        strong[id] = 1;
        cb[id] = slot.owner();
        gh.own = id;
        gh.p = u(slot.get());
        CHECK(slot.get() != nullptr && static_cast<const A0*>(slot.get()) == a);
        for (int i = 1; i < id; ++i) CHECK(cb[i] == nullptr || cb[i] != cb[id] || (strong[i] + weak[i]) == 0);
        (void)isd;
    }

    void step(uint32_t op) {
        switch (op) {
        // strong / strong
        case 0: s[0] = s[1]; chg(gs[0], gs[1]); break;
        case 1: s[1] = s[0]; chg(gs[1], gs[0]); break;
        case 2: s[0] = std::move(s[1]); mov(gs[0], gs[1], gs[1].p); break;
        case 3: s[1].swap(s[0]); std::swap(gs[0], gs[1]); break;
        case 4: s[0] = q; chg(gs[0], G{gq.own, up(gq.p)}); break;
        case 5: s[1] = std::move(q); mov(gs[1], gq, up(gq.p)); break;
        case 6: s[0].reset(); chg(gs[0], G{}); break;
        case 7: s[1] = nullptr; chg(gs[1], G{}); break;
        case 8: q.reset(); chg(gq, G{}); break;
        // creation
        case 9: s[0] = F::template make<A>(sv_u32()); fresh(s[0], gs[0], false); break;
        case 10: q = F::template make<D>(); fresh(q, gq, true); break;
        case 11: s[1].reset(new D(sv_u32())); fresh(s[1], gs[1], true); break;
        case 12: s[0] = xmem::make_unique<A>(5u); fresh(s[0], gs[0], false); break;
        case 13: q = sp<D>(new D, CountDel<D>(1)); fresh(q, gq, true); break;
        // aliasing and casts
        case 14: s[1] = sp<A0>(s[0], s[1].get()); chg(gs[1], G{gs[0].own, gs[1].p}); break;
        case 15: s[0] = sp<A0>(q, static_cast<A0*>(q.get())); chg(gs[0], G{gq.own, up(gq.p)}); break;
        case 16: // self operations
            { auto& r = s[0]; s[0] = r; s[0] = std::move(r); s[0].swap(r); auto& rw = w; w = rw; w = std::move(rw); w.swap(rw); }
            break;
        // temporaries
        case 17: { sp<A0> t(s[0]); if (gs[0].own) ++strong[gs[0].own]; vs(t, gs[0]); vs(s[0], gs[0]); if (gs[0].own) --strong[gs[0].own]; } break;
        case 18: { sp<A0> t(std::move(q)); G x; x.own = gq.own; x.p = up(gq.p); vs(t, x); gq = G{}; vs(q, gq); s[1] = t; if (gs[1].own) --strong[gs[1].own]; gs[1] = x; if (x.own) ++strong[x.own]; vs(s[1], gs[1]); if (x.own) --strong[x.own]; } break;
        // weak
        case 19: w = s[0]; chgw(gw, gs[0]); break;
        case 20: w = q; chgw(gw, G{gq.own, up(gq.p)}); break;
        case 21: v = q; chgw(gv, gq); break;
        case 22: w.reset(); chgw(gw, G{}); break;
        case 23: w = v; chgw(gw, G{gv.own, up(gv.p)}); break;
        case 24: w = std::move(v); movw(gw, gv, up(gv.p)); break;
        case 25: s[1] = w.lock(); { bool al = gw.own && strong[gw.own]; chg(gs[1], al ? gw : G{}); } break;
        case 26: q = v.lock(); { bool al = gv.own && strong[gv.own]; chg(gq, al ? gv : G{}); } break;
        case 27: { wp<A0> t(w); wp<A0> x; x.swap(t); w = x; vw(w, gw); wp<D> y(std::move(v)); v = y; } break;
        case 28: { wp<A0> t(s[1]); w.swap(t); chgw(gw, gs[1]); } break;
        case 29: w = wp<A0>(s[1], s[0].get()); chgw(gw, gs[1].own ? G{gs[1].own, gs[0].p} : G{}); break;
        default: break;
        }
    }
    void clear() {
        s[0].reset(); chg(gs[0], G{}); s[1].reset(); chg(gs[1], G{}); q.reset(); chg(gq, G{});
        w.reset(); chgw(gw, G{}); v.reset(); chgw(gv, G{});
    }
};
static const uint32_t NOPS = 30;

static void end_check() { for (int i = 1; i <= g.n; ++i) CHECK(g.dead[i] == 1); }

// a few different initial worlds
template <class F> static void init(Hist<F>& h, uint32_t c) {
    switch (c) {
    case 0: break;
    case 1: h.step(9); h.step(19); h.step(10); h.step(21); break;            // s0=A, w->s0, q=D, v->q
    case 2: h.step(10); h.step(4); h.step(21); break;                        // q and s0 share a D, v->q
    case 3: h.step(10); h.step(20); h.step(8); h.step(9); h.step(1); break;  // w expired, s0 and s1 share an A
    case 4: h.step(11); h.step(28); h.step(13); h.step(21); h.step(8); break; // s1=D adopted, w->s1, v expired
    default: break;
    }
}

template <class F> static void history(uint32_t cfg, int k) {
    {
        Hist<F> h;
        init(h, cfg);
        h.verify();
        for (int i = 0; i < k; ++i) {
            h.step(sv_choose(NOPS));
            h.verify();
        }
        sv_obs(uint64_t(g.n));
        for (int i = 1; i <= g.n; ++i) sv_obs(uint64_t(g.dead[i]) * 100 + h.strong[i] * 10 + h.weak[i]);
        if (sv_choose(2)) { h.clear(); h.verify(); }   // strong first; otherwise the destructors: weak first
    }
    end_check();
}
ENTRY h_hist_0() { history<FLAV>(0, K); }
ENTRY h_hist_1() { history<FLAV>(1, K); }
ENTRY h_hist_2() { history<FLAV>(2, K); }
ENTRY h_hist_3() { history<FLAV>(3, K); }
ENTRY h_hist_4() { history<FLAV>(4, K); }
