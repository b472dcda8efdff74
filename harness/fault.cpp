// C06: failing allocations (at a symbolic position), throwing constructors, throwing allocators.
#include "salloc.h"
#ifndef FLAV
#define FLAV FA
#endif

struct Boom { int code; };
static uint32_t throw_at;        // the throw_at-th construction from now on throws (0: never)
static int built, gone;          // complete Part objects
static uint32_t ctor_no;
static void maybe() { if (throw_at && ++ctor_no == throw_at) throw Boom{int(ctor_no) + 100}; }
struct Part {
    uint32_t* mem;
    Part() : mem(nullptr) { maybe(); mem = new uint32_t(4u); ++built; }
    explicit Part(uint32_t v) : mem(nullptr) { maybe(); mem = new uint32_t(v); ++built; }
    Part(const Part& o) : mem(nullptr) { maybe(); mem = new uint32_t(*o.mem); ++built; }
    Part(Part&& o) : mem(nullptr) { maybe(); mem = o.mem; o.mem = nullptr; ++built; }
    ~Part() { delete mem; ++gone; }
};
// three sub-objects: a constructor that fails half way has to undo the first ones
struct Obj : Life<Obj>, X1, A0 {
    Part a, b;
    Obj() : A0(11u) {}
    explicit Obj(uint32_t v) : A0(v), a(v), b(v + 1) { maybe(); }
    Obj(const Obj& o) : Life<Obj>(o), X1(o), A0(o.val), a(o.a), b(o.b) {}
    Obj(Obj&& o) : A0(o.val), a(std::move(o.a)), b(std::move(o.b)) {}
};

template <class F> struct Pre {
    typename F::template sp<A0> t, s, keep;
    typename F::template wp<A0> w;
    const void* own[2]; A0* ptr[2]; long cnt[2];
    uint32_t id = 0;
    void setup() {
        uint32_t c = sv_choose(3);
        if (c >= 1) { t = F::template make<A>(3u); id = uint32_t(g.n); w = t; }
        if (c == 2) s = t;
        snap();
    }
    void snap() {
        own[0] = t.owner(); own[1] = s.owner(); ptr[0] = t.get(); ptr[1] = s.get(); cnt[0] = t.use_count(); cnt[1] = s.use_count();
    }
    void same() {
        CHECK(t.owner() == own[0] && s.owner() == own[1]);
        CHECK(t.get() == ptr[0] && s.get() == ptr[1]);
        CHECK(t.use_count() == cnt[0] && s.use_count() == cnt[1]);
        CHECK(w.expired() == (cnt[0] == 0));
        if (t) CHECK(t->val == 3);
        if (id) CHECK(g.dead[id] == 0);
    }
};

enum { NONE, ALLOC, BOOM, AERR };
template <class F> static void faulty(int op) {
    using cbf = typename F::cbf;
    using SP = typename F::template sp<A0>;
    {
        Pre<F> p;
        p.setup();
        // handed-over resources, made before faults are armed
        D* raw = nullptr;
        uint32_t rawid = 0;
        xmem::unique_ptr<D> u;
        xmem::unique_ptr<D, CountDel<D>> ud(nullptr, CountDel<D>(2));
        if (op < 20) { raw = new D(21u); rawid = uint32_t(g.n); }
        if (op == 3 || op == 4 || op == 13) u.reset(raw);
        if (op == 5 || op == 14) ud.reset(raw);
        alignas(Obj) static unsigned char protob[sizeof(Obj)];
        Obj* proto = nullptr;
        if (op == 24 || op == 25) proto = new (protob) Obj(31u);
        // at most one of the faults
        uint32_t where = sv_choose(3);
        if (where == 0) sv_fault_arm(sv_u32());
        if (where == 1) { throw_at = 1 + sv_choose(5); ctor_no = 0; }
        if (where == 2) alloc_throw_at = size_t(alog.n);
        int thrown = NONE, code = 0;
        {
        SP r;
        auto attempt = [&] {
            switch (op) {
            case 0: p.t = SP(raw, CountDel<D>(2)); break;
            case 1: p.t = SP(raw); break;
            case 2: { SP x(raw, CountDel<D>(2)); r = std::move(x); } break;
            case 3: p.t = std::move(u); break;
            case 4: r = SP(std::move(u)); break;
            case 5: p.t = std::move(ud); break;
            case 6: p.t.reset(raw); break;
            case 7: p.t.reset(raw, CountDel<D>(2)); break;
            case 13: r = typename F::template sp<D>(cbf::make_uptr_cb(u, SA<char>(1))); break;
            case 14: p.t = typename F::template sp<D>(cbf::make_uptr_cb(ud, SA<char>(1))); break;
            case 20: p.t = F::template make<Obj>(9u); break;
            case 21: r = F::template make<Obj>(9u); break;
            case 22: p.t = F::template make_ow<Obj>(); break;
            case 23: p.t = F::template make<Obj>(); break;
            case 24: p.t = F::make_ptr(*proto); break;
            case 25: r = F::make_ptr(std::move(*proto)); break;
            case 26: p.t = typename F::template sp<Obj>(cbf::template make_resource_cb<Obj>(SA<char>(1), 9u)); break;
            case 27: r = typename F::template sp<Obj>(cbf::template make_resource_cb_for_overwrite<Obj>(SA<char>(1))); break;
            case 28: p.t = SP(nullptr, CountDel<A0>(3)); break;
            case 29: p.t = SP((A0*)nullptr); break;
            case 30: { xmem::unique_ptr<D> e; p.t = std::move(e); } break;
            case 31: p.t = xmem::make_unique<Obj>(9u); break;
            case 32: p.t = xmem::make_unique_ptr(Obj(9u)); break;
            case 33: p.t.reset(new Obj(9u)); break;
            default: break;
            }
        };
        try { attempt(); }
        catch (const std::bad_alloc&) { thrown = ALLOC; }
        catch (const Boom& b) { thrown = BOOM; code = b.code; }
        catch (const AllocError& e) { thrown = AERR; code = e.code; }
        sv_fault_disarm(); throw_at = 0; alloc_throw_at = size_t(-1);
        sv_obs(uint64_t(thrown));
        if (thrown) {
            sv_reach("thrown");
            if (where == 0) CHECK(thrown == ALLOC);
            if (where == 1) { CHECK(thrown == BOOM); CHECK(code == int(ctor_no) + 100); }
            if (where == 2) CHECK(thrown == AERR && code == 41);
            CHECK(!r && !r.owner());
            p.same();
            switch (op) {
            case 0: case 2: case 7:
                CHECK(dl[2].calls == 1 && dl[2].last == raw);   // disposed of by its deleter
                CHECK(g.dead[rawid] == 1);
                break;
            case 1: case 6: CHECK(g.dead[rawid] == 1); break;
            case 3: case 4: case 13: CHECK(u.get() == raw && g.dead[rawid] == 0); break;
            case 5: case 14: CHECK(ud.get() == raw && g.dead[rawid] == 0 && dl[2].calls == 0 && ud.get_deleter().k == 2); break;
            default: break;
            }
            CHECK(dl[3].calls == 0);
            // all pointers are usable and the same operation succeeds later
            if (op == 3 || op == 4 || op == 5 || op == 13 || op == 14 || op >= 20) {
                attempt();
                if (op == 3 || op == 4 || op == 13) CHECK(!u);
                if (op == 5 || op == 14) CHECK(!ud);
                SP& x = (op == 4 || op == 13 || op == 21 || op == 25 || op == 27) ? r : p.t;
                CHECK(x.use_count() == 1);
                if (op < 20) CHECK(x.get() == static_cast<A0*>(raw) && x->val == 21);
            }
        }
        else {
            sv_reach("succeeded");
            SP& x = (op == 2 || op == 4 || op == 13 || op == 21 || op == 25 || op == 27) ? r : p.t;
            CHECK(x.use_count() == 1);
            if (op < 20) { CHECK(x.get() == static_cast<A0*>(raw) && x->val == 21); CHECK(!u && !ud); CHECK(g.dead[rawid] == 0); }
            else if (op < 28 || op > 30) { CHECK(x.get() == static_cast<const A0*>(g.at[g.n])); }
            else CHECK(!x.get());
            CHECK(dl[2].calls == 0);
        }
        }
        p.t.reset();
        p.s.reset();
        if (proto) proto->~Obj();
        u.reset(); ud.reset();
        CHECK(built == gone);
    }
    for (int i = 1; i <= g.n; ++i) CHECK(g.dead[i] == 1);
    for (int i = 0; i < alog.n; ++i) CHECK(!alog.b[i].live);
}
#define FO(n) ENTRY h_fault_##n() { faulty<FLAV>(n); }
FO(0) FO(1) FO(2) FO(3) FO(4) FO(5) FO(6) FO(7) FO(13) FO(14)
FO(20) FO(21) FO(22) FO(23) FO(24) FO(25) FO(26) FO(27) FO(28) FO(29) FO(30) FO(31) FO(32) FO(33)
