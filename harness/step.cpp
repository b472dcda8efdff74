// One operation of shared/weak pointers from an arbitrary valid state.
//
// State: up to two owners, each with a symbolic number of further strong and weak references (their counters are set
// to symbolic values), a target slot and a source slot in every relation (empty, ownerless alias with symbolic address,
// same owner, other owner, alias with a symbolic address).  After the operation every slot, both owners' counts, the
// objects and the control blocks are compared with the reference model; then everything is dropped and compared again.
#include "world.h"

#ifndef FLAV
#define FLAV FA
#endif

static uint64_t addr_input(bool conv) {
    uint64_t a = sv_u64();
    if (conv) sv_assume(a == 0 || (a % 16 == 0 && a > 4096 && a < (uint64_t(1) << 47)));
    return a;
}

template <class F> struct Step {
    template <class T> using sp = typename F::template sp<T>;
    template <class T> using wp = typename F::template wp<T>;
    Owner<F> o[3];      // 1, 2

    D* raw[3] = {};

    void owners(int kind) {
        for (int k = 1; k <= 2; ++k) {
            o[k].create(k == 1 ? kind : 0);
            raw[k] = o[k].root.get();
            o[k].forge(k == 1);
        }
    }
    bool conv = false, dropped = false;
    void drop() { dropped = true; for (int k = 1; k <= 2; ++k) if (o[k].id) { o[k].root.reset(); --o[k].strong; } }
    void early_drop() { if (sv_choose(2)) drop(); }
    void late_drop() { if (!dropped) drop(); }
    template <class T, class S> uint64_t convert(uint64_t p) { return p ? u(static_cast<T*>(reinterpret_cast<S*>(p))) : 0; }
    template <class T> void adopted(const sp<T>& t, uint32_t id) {
        CHECK(uint32_t(g.n) == id);
        CHECK(t.use_count() == 1);
        CHECK(g.dead[id] == 0);
        CHECK(t.owner() && t.owner() != o[1].cb && t.owner() != o[2].cb);
        CHECK(t.get() == static_cast<const T*>(static_cast<const D*>(static_cast<const A0*>(g.at[id]))));
        CHECK(t->val == g.val[id]);
    }

    // strong slot states: 0 empty, 1 owner 1 with a symbolic address, 2 owner 2 with its object's address, 3 ownerless
    // alias with a symbolic address, 4 owner 1 with its object's address
    template <class T> void put(sp<T>& s, G& gh, int st) {
        gh = G{};
        switch (st) {
        case 1: { uint64_t a = addr_input(conv); s = sp<T>(o[1].root, reinterpret_cast<T*>(a)); gh.own = 1; gh.p = a; ++o[1].strong; } break;
        case 2: s = o[2].root; gh.own = 2; gh.p = u(static_cast<T*>(raw[2])); ++o[2].strong; break;
        case 3: { uint64_t a = addr_input(conv); sp<T> e; s = sp<T>(e, reinterpret_cast<T*>(a)); gh.own = 0; gh.p = a; } break;
        case 4: s = o[1].root; gh.own = 1; gh.p = u(static_cast<T*>(raw[1])); ++o[1].strong; break;
        default: break;
        }
    }
    template <class T> void putw(wp<T>& s, G& gh, int st) {
        gh = G{};
        switch (st) {
        case 1: { uint64_t a = addr_input(conv); s = wp<T>(o[1].root, reinterpret_cast<T*>(a)); gh.own = 1; gh.p = a; ++o[1].weak; } break;
        case 2: s = o[2].root; gh.own = 2; gh.p = u(static_cast<T*>(raw[2])); ++o[2].weak; break;
        default: break;
        }
    }
    template <class T> void vs(const sp<T>& s, const G& gh) {
        CHECK(u(s.get()) == gh.p);
        CHECK(s.owner() == o[gh.own].cb);
        CHECK(s.t_owner() == s.owner());
        CHECK(uint64_t(s.use_count()) == (gh.own ? o[gh.own].count() : 0));
        CHECK(bool(s) == (gh.p != 0));
        CHECK(no_owner(s) == (gh.own == 0));
    }
    template <class T> void vw(const wp<T>& s, const G& gh) {
        CHECK(s.owner() == o[gh.own].cb);
        CHECK(bool(s) == (gh.own != 0));
        CHECK(uint64_t(s.use_count()) == (gh.own ? o[gh.own].count() : 0));
        CHECK(s.expired() == (gh.own == 0 || o[gh.own].count() == 0));
        // what lock() yields shows the stored pointer
        bool alive = gh.own && o[gh.own].count() != 0;
        {
            auto l = s.lock();
            if (alive) {
                ++o[gh.own].strong;
                vs(l, gh);
                --o[gh.own].strong;
            }
            else vs(l, G{});
        }
        CHECK(uint64_t(s.use_count()) == (gh.own ? o[gh.own].count() : 0));
    }
    void vo() { o[1].verify(); o[2].verify(); }
    void count(const G& gh, int d) { if (gh.own) o[gh.own].strong += d; }
    void countw(const G& gh, int d) { if (gh.own) o[gh.own].weak += d; }
    void finish() {
        vo();
        if (o[1].count() != 0 || o[2].count() != 0 || o[1].xw || o[2].xw) sv_allow_leak();
    }
};



// strong pointer: every assignment-like operation; target and source of possibly different static types
template <class F, class T, class S, bool Conv>
static void strong_ops(int op, int kind = 0) {
    Step<F> w;
    w.conv = Conv;
    w.owners(kind);
    {
        typename F::template sp<T> t;
        typename F::template sp<S> s;
        G gt, gs;
        w.put(t, gt, int(sv_choose(4)));
        if (op != 4 && op != 5 && op != 7 && op != 8 && op != 9) w.put(s, gs, int(sv_choose(4)));
        w.early_drop();
        w.vs(t, gt); w.vs(s, gs);
        const G gc{gs.own, w.template convert<T, S>(gs.p)};   // the converted source
        switch (op) {
        case 0: { auto& r = (t = s); CHECK(&r == &t); } w.count(gt, -1); w.count(gs, 1); gt = gc; break;
        case 1: { auto& r = (t = std::move(s)); CHECK(&r == &t); } w.count(gt, -1); gt = gc; gs = G{}; break;
        case 2:
            {
                typename F::template sp<T> c(s);
                w.count(gs, 1);
                w.vs(c, gc); w.vs(t, gt); w.vs(s, gs); w.vo();
            }
            w.count(gs, -1);
            break;
        case 3:
            {
                typename F::template sp<T> c(std::move(s));
                w.vs(c, gc); w.vs(t, gt); w.vs(s, G{}); w.vo();
            }
            w.count(gs, -1); gs = G{};
            break;
        case 4: t.reset(); w.count(gt, -1); gt = G{}; break;
        case 5: t = nullptr; w.count(gt, -1); gt = G{}; break;
        case 6:
            {
                uint64_t a = addr_input(false);
                t = typename F::template sp<T>(s, reinterpret_cast<T*>(a));
                w.count(gt, -1); w.count(gs, 1); gt = G{gs.own, a};
            }
            break;
        case 7:
            t.reset(new D(17u)); w.count(gt, -1);
            w.adopted(t, 3); w.vs(s, gs); w.vo();
            t.reset(); CHECK(g.dead[3] == 1);
            gt = G{};
            break;
        case 8: t.reset(nullptr); w.count(gt, -1); gt = G{}; { auto& tt = t; t = tt; t = std::move(tt); } break;
        case 9: t = typename F::template sp<T>(nullptr); w.count(gt, -1); gt = G{}; break;
        default: break;
        }
        w.vs(t, gt); w.vs(s, gs); w.vo();
        sv_obs(uint64_t(t.use_count())); sv_obs(uint64_t(s.use_count()));
        w.late_drop();
        w.vs(t, gt); w.vs(s, gs); w.vo();
        t.reset(); w.count(gt, -1); gt = G{};
        w.vs(t, gt); w.vs(s, gs); w.vo();
        w.count(gs, -1);
    }
    w.finish();
}

// same static type only: swap and self operations
template <class F, class T>
static void strong_self(int op, int kind = 0) {
    Step<F> w;
    w.owners(kind);
    {
        typename F::template sp<T> t, s;
        G gt, gs;
        w.put(t, gt, int(sv_choose(4)));
        if (op == 0) w.put(s, gs, int(sv_choose(4)));
        w.early_drop();
        auto& tt = t;
        switch (op) {
        case 0: t.swap(s); std::swap(gt, gs); break;
        case 1: t.swap(tt); break;
        case 2: t = tt; break;
        case 3: t = std::move(tt); break;
        case 4: { using std::swap; swap(t, s); std::swap(gt, gs); } break;
        case 5: t = typename F::template sp<T>(t, t.get()); break;
        case 6: t = typename F::template sp<T>(t); break;
        default: break;
        }
        w.vs(t, gt); w.vs(s, gs); w.vo();
        w.late_drop();
        w.vs(t, gt); w.vs(s, gs); w.vo();
        t.reset(); w.count(gt, -1); gt = G{};
        w.vs(s, gs); w.vo();
        w.count(gs, -1);
    }
    w.finish();
}

// weak target; the source is a weak or strong pointer of possibly different static type
template <class F, class T, class S, bool Conv>
static void weak_ops(int op, int kind = 0) {
    Step<F> w;
    w.conv = Conv;
    w.owners(kind);
    {
        typename F::template wp<T> t;
        typename F::template wp<S> s;
        typename F::template sp<S> p;
        G gt, gs, gp;
        bool strong_src = op == 6 || op == 7 || op == 8;
        w.putw(t, gt, int(sv_choose(3)));
        if (strong_src) w.put(p, gp, int(sv_choose(4)));
        else if (op != 4) w.putw(s, gs, int(sv_choose(3)));
        typename F::template sp<S> l;
        G gl;
        if (op == 9) w.put(l, gl, int(sv_choose(4)));
        w.early_drop();
        const G gc{gs.own, w.template convert<T, S>(gs.p)}, gpc{gp.own, w.template convert<T, S>(gp.p)};
        switch (op) {
        case 0: { auto& r = (t = s); CHECK(&r == &t); } w.countw(gt, -1); w.countw(gs, 1); gt = gc; break;
        case 1: { auto& r = (t = std::move(s)); CHECK(&r == &t); } w.countw(gt, -1); gt = gc; gs = G{}; break;
        case 2:
            {
                typename F::template wp<T> c(s);
                w.countw(gs, 1);
                w.vw(c, gc); w.vw(t, gt); w.vw(s, gs); w.vo();
            }
            w.countw(gs, -1);
            break;
        case 3:
            {
                typename F::template wp<T> c(std::move(s));
                w.vw(c, gc); w.vw(t, gt); w.vw(s, G{}); w.vo();
            }
            w.countw(gs, -1); gs = G{};
            break;
        case 4: t.reset(); w.countw(gt, -1); gt = G{}; t.reset(); break;
        case 5: // aliasing weak pointer of a weak pointer
            {
                uint64_t a = addr_input(false);
                typename F::template wp<T> c(s, reinterpret_cast<T*>(a));
                w.countw(gs, 1);
                G ga{gs.own, gs.own ? a : 0};
                w.vw(c, ga); w.vw(t, gt); w.vw(s, gs); w.vo();
                t = c;
                w.countw(gt, -1); w.countw(ga, 1); gt = ga;
                w.vw(t, gt); w.vo();
                w.countw(gs, -1);
            }
            break;
        case 6: { auto& r = (t = p); CHECK(&r == &t); } w.countw(gt, -1); w.countw(gp, 1); gt = gpc; break;
        case 7:
            {
                typename F::template wp<T> c(p);
                w.countw(gp, 1);
                w.vw(c, gpc); w.vw(t, gt); w.vs(p, gp); w.vo();
            }
            w.countw(gp, -1);
            break;
        case 8: // aliasing weak pointer of a strong pointer
            {
                uint64_t a = addr_input(false);
                typename F::template wp<T> c(p, reinterpret_cast<T*>(a));
                w.countw(gp, 1);
                G ga{gp.own, gp.own ? a : 0};
                w.vw(c, ga); w.vw(t, gt); w.vs(p, gp); w.vo();
                t = std::move(c);
                w.countw(gt, -1); gt = ga;
            }
            break;
        case 9: // lock of an arbitrary weak pointer into a strong one
            {
                const bool alive = gs.own && w.o[gs.own].count() != 0;
                l = s.lock();
                if (alive) w.o[gs.own].strong++;
                w.count(gl, -1);
                gl = alive ? gs : G{};
                w.vs(l, gl); w.vw(s, gs); w.vw(t, gt); w.vo();
                if (alive) sv_reach("locked"); else sv_reach("lock-empty");
                l.reset();
                w.count(gl, -1);
            }
            break;
        default: break;
        }
        w.vw(t, gt); w.vw(s, gs); w.vs(p, gp); w.vo();
        sv_obs(uint64_t(t.use_count())); sv_obs(uint64_t(s.use_count()));
        w.late_drop();
        w.vw(t, gt); w.vw(s, gs); w.vs(p, gp); w.vo();
        w.o[1].weak_gone(); w.o[2].weak_gone(); w.vo();
        p.reset(); w.count(gp, -1); gp = G{};
        w.vw(t, gt); w.vw(s, gs); w.vo();
        t.reset(); w.countw(gt, -1); gt = G{};
        w.vw(t, gt); w.vw(s, gs); w.vo();
        w.countw(gs, -1);
    }
    w.finish();
}

template <class F, class T>
static void weak_self(int op, int kind = 0) {
    Step<F> w;
    w.owners(kind);
    {
        typename F::template wp<T> t, s;
        G gt, gs;
        w.putw(t, gt, int(sv_choose(3)));
        if (op == 0 || op == 4) w.putw(s, gs, int(sv_choose(3)));
        w.early_drop();
        auto& tt = t;
        switch (op) {
        case 0: t.swap(s); std::swap(gt, gs); break;
        case 1: t.swap(tt); break;
        case 2: t = tt; break;
        case 3: t = std::move(tt); break;
        case 4: { using std::swap; swap(t, s); std::swap(gt, gs); } break;
        case 5: t = typename F::template wp<T>(t); break;
        default: break;
        }
        w.vw(t, gt); w.vw(s, gs); w.vo();
        w.late_drop();
        w.vw(t, gt); w.vw(s, gs); w.vo();
        w.o[1].weak_gone(); w.o[2].weak_gone(); w.vo();
        t.reset(); w.countw(gt, -1); gt = G{};
        w.vw(s, gs); w.vo();
        w.countw(gs, -1);
    }
    w.finish();
}

#define STRONG(n) \
    ENTRY h_strong_##n() { strong_ops<FLAV, A0, A0, false>(n); } \
    ENTRY h_strongc_##n() { strong_ops<FLAV, A0, D, true>(n); }
STRONG(0) STRONG(1) STRONG(2) STRONG(3) STRONG(6)
ENTRY h_strongk_1() { strong_ops<FLAV, A0, D, true>(4, 1); }
ENTRY h_strongk_2() { strong_ops<FLAV, A0, D, true>(4, 2); }
ENTRY h_strongk_3() { strong_ops<FLAV, A0, D, true>(4, 3); }
ENTRY h_strong_4() { strong_ops<FLAV, A0, A0, false>(4); }
ENTRY h_strong_5() { strong_ops<FLAV, A0, A0, false>(5); }
ENTRY h_strong_7() { strong_ops<FLAV, A0, A0, false>(7); }
ENTRY h_strong_8() { strong_ops<FLAV, A0, A0, false>(8); }
ENTRY h_strong_9() { strong_ops<FLAV, A0, A0, false>(9); }
#define SELF(n) ENTRY h_sself_##n() { strong_self<FLAV, A0>(n); }
SELF(0) SELF(1) SELF(2) SELF(3) SELF(4) SELF(5) SELF(6)
#define WEAK(n) \
    ENTRY h_weak_##n() { weak_ops<FLAV, A0, A0, false>(n); } \
    ENTRY h_weakc_##n() { weak_ops<FLAV, A0, D, true>(n); }
WEAK(0) WEAK(1) WEAK(2) WEAK(3) WEAK(5) WEAK(6) WEAK(7) WEAK(8)
ENTRY h_weak_4() { weak_ops<FLAV, A0, A0, false>(4); }
ENTRY h_weak_9() { weak_ops<FLAV, A0, A0, false>(9); }
#define WSELF(n) ENTRY h_wself_##n() { weak_self<FLAV, A0>(n); }
WSELF(0) WSELF(1) WSELF(2) WSELF(3) WSELF(4) WSELF(5)
