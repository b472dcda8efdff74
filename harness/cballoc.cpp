// C03: control blocks obtained from stateful allocators, over bounded histories with several owners.
#include "salloc.h"
#ifndef FLAV
#define FLAV FA
#endif
#ifndef K
#define K 3
#endif

struct Big : Life<Big>, A0 { alignas(64) char c[64]; explicit Big(uint32_t v) : A0(v) {} };

template <class F> struct W {
    using cbf = typename F::cbf;
    typename F::template sp<A0> s[2];
    typename F::template wp<A0> w[2];
    int gs[2] = {}, gw[2] = {};      // owner ids (allocator ids), 0 = none
    int strong[12] = {}, weak[12] = {};
    int aid[12] = {};                // allocator of each owner
    uint32_t obj[12] = {};
    int n = 0;

    typename F::template sp<A0> make(int kind, int alloc) {
        ++n;
        aid[n] = alloc;
        switch (kind) {
        case 0: return typename F::template sp<A>(cbf::template make_resource_cb<A>(SA<char>(alloc), 5u));
        case 1: return typename F::template sp<Big>(cbf::template make_resource_cb<Big>(SA<char>(alloc), 6u));
        case 2: { xmem::unique_ptr<D> u(new D(7u)); return typename F::template sp<D>(cbf::make_uptr_cb(u, SA<long>(alloc))); }
        case 3: { xmem::unique_ptr<A, CountDel<A>> u(new A(8u), CountDel<A>(1)); return typename F::template sp<A>(cbf::make_uptr_cb(u, SA<char>(alloc))); }
        default: return typename F::template sp<A>(cbf::template make_resource_cb_for_overwrite<A>(SA<char>(alloc)));
        }
    }
    void put(int slot, int kind, int alloc) {
        auto p = make(kind, alloc);
        obj[n] = uint32_t(g.n);
        CHECK(alog.outstanding(alloc) == 1 || aid[n] == alloc);
        strong[n] = 1;
        if (gs[slot]) --strong[gs[slot]];
        gs[slot] = n;
        s[slot] = std::move(p);
    }
    void setw(int slot, int o) { if (o) ++weak[o]; if (gw[slot]) --weak[gw[slot]]; gw[slot] = o; }
    void sets(int slot, int o) { if (o) ++strong[o]; if (gs[slot]) --strong[gs[slot]]; gs[slot] = o; }
    void verify() {
        // every owner has exactly one block, from its allocator, as long as anything refers to it
        int live[4] = {};
        for (int o = 1; o <= n; ++o) {
            if (strong[o] || weak[o]) ++live[aid[o]];
            CHECK(g.dead[obj[o]] == (strong[o] ? 0 : 1));
        }
        for (int a = 1; a <= 3; ++a) CHECK(alog.outstanding(a) == live[a]);
    }
    void step(uint32_t op) {
        switch (op) {
        case 0: s[0] = s[1]; sets(0, gs[1]); break;
        case 1: s[1] = std::move(s[0]); { int o = gs[0]; sets(0, 0); if (gs[1]) --strong[gs[1]]; gs[1] = o; if (o) ++strong[o]; } break;
        case 2: s[0].swap(s[1]); std::swap(gs[0], gs[1]); break;
        case 3: s[0].reset(); sets(0, 0); break;
        case 4: s[1].reset(); sets(1, 0); break;
        case 5: w[0] = s[0]; setw(0, gs[0]); break;
        case 6: w[1] = w[0]; setw(1, gw[0]); break;
        case 7: w[0].reset(); setw(0, 0); break;
        case 8: w[0].swap(w[1]); std::swap(gw[0], gw[1]); break;
        case 9: w[1] = std::move(w[0]); { int o = gw[0]; if (gw[1]) --weak[gw[1]]; gw[1] = o; gw[0] = 0; } break;
        case 10: s[1] = w[1].lock(); { bool al = gw[1] && strong[gw[1]]; sets(1, al ? gw[1] : 0); } break;
        case 11: { typename F::template sp<A0> t = std::move(s[1]); typename F::template wp<A0> x(t); w[1] = std::move(x); setw(1, gs[1]); sets(1, 0); } break;
        case 12: { typename F::template wp<A0> t(std::move(w[1])); typename F::template sp<A0> l = t.lock(); setw(1, 0); } break;
        case 13: put(0, 0, 3); break;
        case 14: put(1, 2, 1); break;
        case 15: { typename F::template sp<A0> al(s[0], s[1].get()); w[0] = al; setw(0, gs[0]); } break;
        default: break;
        }
    }
};
static const uint32_t NOPS = 16;

template <class F> static void run(int k0) {
    {
        W<F> w;
        w.put(0, k0, 1);
        w.verify();
        w.put(1, int(sv_choose(2)) ? 3 : 0, 2);
        w.verify();
        for (int i = 0; i < K; ++i) { w.step(sv_choose(NOPS)); w.verify(); }
        sv_obs(alog.n); sv_obs(uint64_t(g.n));
        switch (sv_choose(2)) {
        case 0: break;
        default: for (int i = 0; i < 2; ++i) { w.w[i].reset(); w.setw(i, 0); w.verify(); } break;
        }
    }
    for (int i = 0; i < alog.n; ++i) CHECK(!alog.b[i].live);
    for (int i = 1; i <= g.n; ++i) CHECK(g.dead[i] == 1);
}
ENTRY h_alloc_inplace() { run<FLAV>(0); }
ENTRY h_alloc_inplace_big() { run<FLAV>(1); }
ENTRY h_alloc_uptr() { run<FLAV>(2); }
ENTRY h_alloc_uptr_del() { run<FLAV>(3); }
ENTRY h_alloc_overwrite() { run<FLAV>(4); }

// a null unique pointer, failing constructors and failing allocators give everything back, too
struct Thr : Life<Thr>, A0 { Thr() : A0(1u) { throw 5; } explicit Thr(int x) : A0(1u) { if (x) throw x; } };
template <class F> static void special(int c) {
    using cbf = typename F::cbf;
    {
        typename F::template wp<A0> w;
        typename F::template sp<A0> s;
        int thrown = 0;
        try {
            switch (c) {
            case 0: { xmem::unique_ptr<D> u; s = typename F::template sp<D>(cbf::make_uptr_cb(u, SA<char>(1))); CHECK(!s.get()); w = s; } break;
            case 1: s = typename F::template sp<Thr>(cbf::template make_resource_cb<Thr>(SA<char>(1), int(sv_choose(2)) * 9)); w = s; break;
            case 2: s = typename F::template sp<Thr>(cbf::template make_resource_cb_for_overwrite<Thr>(SA<char>(2))); break;
            case 3: alloc_throw_at = sv_choose(2) ? 0 : 77; { xmem::unique_ptr<D> u(new D(3u)); s = typename F::template sp<D>(cbf::make_uptr_cb(u, SA<char>(2))); } break;
            default: break;
            }
        }
        catch (int x) { thrown = x; }
        catch (AllocError& e) { thrown = e.code; }
        if (thrown) {
            sv_reach("thrown");
            CHECK(!s.get() && !s.owner() && w.expired());
            CHECK(alog.outstanding(1) == 0 && alog.outstanding(2) == 0);
            CHECK(alog.total(1) + alog.total(2) == alog.n && (alog.n == 1 || thrown == 41));
        }
        else CHECK(alog.outstanding(1) + alog.outstanding(2) == 1);
        sv_obs(uint64_t(thrown));
        if (sv_choose(2)) s.reset();
    }
    for (int i = 0; i < alog.n; ++i) CHECK(!alog.b[i].live);
}
ENTRY h_special_0() { special<FLAV>(0); }
ENTRY h_special_1() { special<FLAV>(1); }
ENTRY h_special_2() { special<FLAV>(2); }
ENTRY h_special_3() { special<FLAV>(3); }
