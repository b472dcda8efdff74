// C07: a user-supplied control block that records its notifications.
#include "sv.h"
#include <xmem/local_ref_count.hpp>
#include <xmem/atomic_ref_count.hpp>
#include <xmem/common_control_block.hpp>
#include <xmem/basic_atomic_shared_ptr_storage.hpp>
#ifndef K
#define K 2
#endif
#ifndef RC
#define RC xmem::atomic_ref_count
#endif

static int nlive;
struct TCB : protected xmem::control_block_base<RC> {
    using super = xmem::control_block_base<RC>;
    struct Set {
        const void* a[10];
        int n = 0;
        bool has(const void* p) const { for (int i = 0; i < n; ++i) if (a[i] == p) return true; return false; }
        void add(const void* p) { CHECK(!has(p)); CHECK(n < 10); a[n++] = p; }
        void del(const void* p) {
            CHECK(has(p));
            for (int i = 0; i < n; ++i) if (a[i] == p) { a[i] = a[--n]; return; }
        }
    };
    mutable Set st, wk;
    TCB() { ++nlive; }
    ~TCB() { CHECK(st.n == 0); CHECK(wk.n == 0); --nlive; }

    void init_strong(const void* s) noexcept { super::init_strong(s); st.add(s); }
    void inc_strong_ref(const void* s) noexcept { super::inc_strong_ref(s); st.add(s); }
    void dec_strong_ref(const void* s) noexcept { st.del(s); super::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept { if (!super::inc_strong_ref_nz(s)) return false; st.add(s); return true; }
    using super::strong_ref_count;
    void transfer_strong(const void* d, const void* s) { super::transfer_strong(d, s); st.add(d); st.del(s); }
    void inc_weak_ref(const void* s) noexcept { super::inc_weak_ref(s); wk.add(s); }
    void dec_weak_ref(const void* s) noexcept { wk.del(s); super::dec_weak_ref(s); }
    void transfer_weak(const void* d, const void* s) { super::transfer_weak(d, s); wk.add(d); wk.del(s); }
};
using TF = xmem::control_block_factory<TCB>;
template <class T> using sp = xmem::basic_shared_ptr<TF, T>;
template <class T> using wp = xmem::basic_weak_ptr<TF, T>;

struct X { uint64_t a = 3; virtual ~X() = default; };
struct B { uint32_t v = 9; virtual ~B() = default; };
struct D : Life<D>, X, B, xmem::basic_enable_shared_from<TF> {
    using super = xmem::basic_enable_shared_from<TF>;
    sp<void> me() { return this->shared_from_this(); }
    wp<void> wme() { return this->weak_from_this(); }
    sp<B> meb() { return this->shared_from(static_cast<B*>(this)); }
    wp<B> wmeb() { return this->weak_from(static_cast<B*>(this)); }
};
struct T : Life<T>, B, xmem::basic_enable_shared_from_this<TF, T> {};
static B alive;      // what aliases point to: never destroyed
template <class C, class... A> sp<C> mk(A&&... a) { return sp<C>(TF::make_resource_cb<C>(xmem::allocator<char>{}, std::forward<A>(a)...)); }

struct World {
    sp<B> s[3];
    sp<D> q;
    sp<void> z;
    wp<B> w[2];
    wp<D> v;
    wp<void> wz;
    xmem::basic_atomic_shared_ptr_storage<TF, B> stg;

    template <class P> static bool owned(const P& p, const TCB* c) { return p.t_owner() == c; }
    // the recorded sets are exactly the live pointers that report this control block as their owner
    void one(const TCB* c) {
        if (!c) return;
        int ns = 0, nw = 0;
        auto str = [&](auto& p) { CHECK(c->st.has(&p) == owned(p, c)); ns += owned(p, c); };
        auto wea = [&](auto& p) { CHECK(c->wk.has(&p) == owned(p, c)); nw += owned(p, c); };
        str(s[0]); str(s[1]); str(s[2]); str(q); str(z);
        wea(w[0]); wea(w[1]); wea(v); wea(wz);
        // the pointer inside the storage: one more address, within the storage
        bool in = instg == c;
        int ni = 0;
        for (int i = 0; i < c->st.n; ++i) if (c->st.a[i] >= (const void*)&stg && c->st.a[i] < (const void*)(&stg + 1)) ++ni;
        CHECK(ni == in);
        ns += in;
        CHECK(c->st.n == ns);
        CHECK(c->wk.n == nw);
        CHECK(c->strong_ref_count() == ns);
    }
    const TCB* instg = nullptr;
    void verify() {
        { auto p = stg.load(); instg = p.t_owner(); if (instg) CHECK(instg->st.has(&p)); }
        one(instg);
        for (auto& p : s) one(p.t_owner());
        one(q.t_owner()); one(z.t_owner());
        for (auto& p : w) one(p.t_owner());
        one(v.t_owner()); one(wz.t_owner());
    }
    static B* at(const sp<B>& p) { return p ? &alive : nullptr; }
    void step(uint32_t op) {
        switch (op) {
        case 0: s[0] = s[1]; break;
        case 1: s[0] = std::move(s[1]); break;
        case 2: s[0].swap(s[1]); break;
        case 3: s[1] = q; break;
        case 4: s[1] = std::move(q); break;
        case 5: s[0].reset(); break;
        case 6: q = nullptr; break;
        case 7: { auto& r = s[0]; s[0] = r; s[0] = std::move(r); s[0].swap(r); auto& y = w[0]; w[0] = y; w[0] = std::move(y); w[0].swap(y); } break;
        case 8: s[2] = mk<D>(); break;
        case 9: q = sp<D>(new D); break;
        case 10: s[1].reset(new T); break;
        case 11: s[2] = xmem::make_unique<D>(); break;
        case 12: { sp<B> t(s[0]); sp<B> t2(std::move(s[0])); s[2] = t2; s[1] = std::move(t); verify_with(t2); } break;
        case 13: w[0] = s[0]; break;
        case 14: w[1] = w[0]; break;
        case 15: w[0] = std::move(w[1]); break;
        case 16: w[0].swap(w[1]); break;
        case 17: w[1] = v; break;
        case 18: w[1] = std::move(v); break;
        case 19: v = q; break;
        case 20: w[0].reset(); break;
        case 21: s[1] = w[0].lock(); break;
        case 22: q = v.lock(); break;
        case 23: s[2] = sp<B>(s[0], at(s[1])); break;
        case 24: w[1] = wp<B>(s[0], at(s[1])); break;
        case 25: w[0] = wp<B>(w[1], at(s[1])); break;
        case 26: if (q) { z = q->me(); } break;
        case 27: if (q) { wz = q->wme(); w[1] = q->wmeb(); } break;
        case 28: if (q) { s[0] = q->meb(); } break;
        case 29: { wp<B> t(w[0]); wp<B> t2(std::move(w[1])); wp<B> t3(q); w[1] = std::move(t3); v = wp<D>(q); wp<void> t4(std::move(t)); wz = t4; } break;
        case 30: z = s[0]; break;
        case 31: s[0] = xmem::static_pointer_cast<B>(q); z = xmem::dynamic_pointer_cast<X>(s[1]); q = xmem::dynamic_pointer_cast<D>(s[2]); break;
        case 32: { auto t = mk<T>(); s[0] = t->shared_from_this(); w[0] = t->weak_from_this(); s[1] = std::move(t); } break;
        case 33: s[0] = xmem::make_aliased(s[1], at(s[2])); break;
        case 34: { using std::swap; swap(s[1], s[2]); swap(w[0], w[1]); sp<D> t; t.swap(q); q = std::move(t); } break;
        case 35: s[1] = sp<B>(nullptr); s[2] = sp<B>((D*)nullptr); break;
        case 36: stg.store(s[0]); break;
        case 37: s[1] = stg.load(); break;
        case 38: s[0] = stg.exchange(std::move(s[1])); break;
        case 39: stg.store(std::move(s[0])); break;
        case 40: { auto e = stg.load(); stg.compare_exchange(e, s[1]); s[2] = std::move(e); } break;
        case 41: stg.compare_exchange(s[2], s[0]); break;
        case 42: { xmem::basic_atomic_shared_ptr_storage<TF, B> t(s[0]); s[1] = t.exchange(s[2]); } break;
        default: break;
        }
    }
    void verify_with(sp<B>& t) {
        if (!t.t_owner()) return;
        CHECK(t.t_owner()->st.has(&t));
        CHECK(t.t_owner()->st.n == t.use_count());
    }
};
static const uint32_t NOPS = 43;

static void run(int cfg) {
    {
        World w;
        switch (cfg) {
        case 1: w.step(8); w.s[0] = w.s[2]; w.step(13); w.step(9); w.step(19); w.step(27); break;
        case 2: w.step(9); w.step(3); w.s[0] = w.q; w.step(19); w.step(13); w.step(14); w.step(8); break;
        case 3: w.step(9); w.step(19); w.step(27); w.step(6); w.step(10); w.step(13); break;
        default: break;
        }
        w.verify();
        for (int i = 0; i < K; ++i) { w.step(sv_choose(NOPS)); w.verify(); }
        sv_obs(nlive); sv_obs(uint64_t(w.s[0].use_count())); sv_obs(uint64_t(w.q.use_count()));
        if (sv_choose(2)) { w.v.reset(); w.w[0].reset(); w.s[1].reset(); w.verify(); w.z.reset(); w.s[0].reset(); w.verify(); w.q.reset(); w.verify(); }
    }
    CHECK(nlive == 0);
}
ENTRY h_track_0() { run(0); }
ENTRY h_track_1() { run(1); }
ENTRY h_track_2() { run(2); }
ENTRY h_track_3() { run(3); }
