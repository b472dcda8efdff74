// C01, C09: objects created or adopted by every form are destroyed exactly once, by the right deleter, with the last owner,
// also when the remaining owners are of base, void or const type, without virtual destructors.
#include "world.h"

static int born, died;
struct NB { uint64_t q = 5; };                              // no virtual destructor
struct NM { uint32_t z = 6; };
struct Obj : NM, NB {
    uint32_t id, v; bool alive = true;
    explicit Obj(uint32_t v = 3) : id(uint32_t(++born)), v(v) {}
    Obj(const Obj&) = delete;
    ~Obj() { CHECK(alive); alive = false; ++died; sv_poison(this, sizeof *this); }
    static void* operator new(size_t n) { return ::operator new(n); }
    static void* operator new(size_t, void* p) { sv_unpoison(p, sizeof(Obj)); return p; }
    static void operator delete(void* p, size_t n) { sv_unpoison(p, n); ::operator delete(p); }
    static void operator delete(void*, void*) {}
};
static uint32_t used; static int calls;
template <class T> struct TDel {
    uint32_t tag;
    explicit TDel(uint32_t t) : tag(t) {}
    TDel(TDel&& o) noexcept : tag(o.tag) { o.tag = 0xdead; }
    TDel(const TDel&) = delete;
    template <class U> TDel(TDel<U>&& o) noexcept : tag(o.tag) { o.tag = 0xdead; }
    TDel& operator=(TDel&& o) noexcept { tag = o.tag; o.tag = 0xdead; return *this; }
    void operator()(T* p) { used = tag; ++calls; delete p; }
};
struct PlainDel { uint32_t tag; void operator()(Obj* p) { used = tag; ++calls; delete p; } };
static uint32_t ftag;
static void fdel(Obj* p) { used = ftag; ++calls; delete p; }

template <class F, class T> static void adopt() {
    using SP = typename F::template sp<T>;
    {
        uint32_t tag = sv_u32(); sv_assume(tag != 0xdead);
        uint32_t v = sv_u32();
        PlainDel pd{tag};
        ftag = tag;
        bool custom = true;
        SP s;
        typename F::template sp<Obj> so;
        switch (sv_choose(14)) {
        case 0: s = F::template make<Obj>(v); custom = false; break;
        case 1: s = SP(new Obj(v)); custom = false; break;
        case 2: s = SP(new Obj(v), TDel<Obj>(tag)); break;
        case 3: s = SP(new Obj(v), pd); break;
        case 4: s = SP(new Obj(v), &fdel); break;
        case 5: { xmem::unique_ptr<Obj> u(new Obj(v)); s = std::move(u); CHECK(!u && !u.get()); custom = false; } break;
        case 6: { xmem::unique_ptr<Obj, TDel<Obj>> u(new Obj(v), TDel<Obj>(tag)); s = std::move(u); CHECK(!u); } break;
        case 7: { xmem::unique_ptr<Obj, PlainDel&> u(new Obj(v), pd); s = SP(std::move(u)); CHECK(!u); } break;
        case 8: { xmem::unique_ptr<Obj, void (*)(Obj*)> u(new Obj(v), &fdel); s = std::move(u); CHECK(!u); } break;
        case 9: s.reset(new Obj(v)); custom = false; break;
        case 10: s.reset(new Obj(v), TDel<Obj>(tag)); break;
        case 11: s.reset(new Obj(v), [tag](Obj* p) { used = tag; ++calls; delete p; }); break;
        case 12: { xmem::unique_ptr<Obj, TDel<Obj>> a(new Obj(v), TDel<Obj>(tag + 1)), b(new Obj(v), TDel<Obj>(tag));
            a.swap(b); b.reset(); CHECK(used == tag + 1 && calls == 1); calls = 0; used = 0; born = 1; died = 0; s = std::move(a); } break;
        default: { auto u = xmem::make_unique<Obj>(v); xmem::unique_ptr<Obj> w(std::move(u)); so = std::move(w); s = so; so.reset(); custom = false; } break;
        }
        CHECK(s.use_count() == 1 && s.get() != nullptr && born == 1 && died == 0 && calls == 0);
        SP t; typename F::template sp<const void> cv; typename F::template wp<T> w(s);
        const void* stored = s.get();
        for (int i = 0; i < 2; ++i) switch (sv_choose(6)) {
            case 0: if (s) t = s; break;
            case 1: cv = s; break;
            case 2: { SP x(std::move(s)); s = x; } break;
            case 3: s.swap(t); break;
            case 4: if (s) t = std::move(s); break;
            default: { typename F::template sp<T> x = w.lock(); CHECK(x.get() == stored); } break;
        }
        long n = (s ? 1 : 0) + (t ? 1 : 0) + (cv ? 1 : 0);
        CHECK(w.use_count() == n && died == 0 && calls == 0);
        int order = sv_choose(3);
        if (order == 0) { s.reset(); CHECK(died == (n == 1 && !t && !cv)); t.reset(); cv.reset(); }
        else if (order == 1) { cv = nullptr; CHECK(died == ((s || t) ? 0 : 1)); s = SP(); t = SP(nullptr); }
        else { { SP a(std::move(t)); CHECK(w.use_count() == n && died == 0); } cv.reset(); s = nullptr; }
        CHECK(died == 1 && w.expired());
        CHECK(calls == (custom ? 1 : 0));
        if (custom) CHECK(used == tag);
        sv_obs(v);
    }
    CHECK(died == 1);
}
#define AD(n, T) ENTRY h_adopt_##n() { adopt<FLAV, T>(); }
AD(obj, Obj) AD(base, NB) AD(cbase, const NB) AD(cobj, const Obj) AD(void, void) AD(cvoid, const void)

// two objects of different creation forms in the same pointers, exchanged and overwritten
template <class F> static void two() {
    {
        typename F::template sp<NB> s, t;
        uint32_t tag = sv_u32(); sv_assume(tag != 0xdead);
        int f = sv_choose(4);
        switch (f) {
        case 0: s = F::template make<Obj>(1u); break;
        case 1: s = typename F::template sp<NB>(new Obj(1)); break;
        case 2: s.reset(new Obj(1), TDel<Obj>(tag)); break;
        default: s = xmem::unique_ptr<Obj, TDel<Obj>>(new Obj(1), TDel<Obj>(tag)); break;
        }
        switch (sv_choose(3)) {
        case 0: t = F::template make<Obj>(2u); break;
        case 1: t.reset(new Obj(2)); break;
        default: t = typename F::template sp<Obj>(new Obj(2), TDel<Obj>(tag + 1)); break;
        }
        auto id = [](const auto& p) { return p ? static_cast<Obj*>(p.get())->id : 0u; };
        CHECK(id(s) == 1 && id(t) == 2);
        switch (sv_choose(5)) {
        case 0: s.swap(t); CHECK(id(s) == 2 && id(t) == 1 && died == 0); s.reset(); CHECK(died == 1 && id(t) == 1); break;
        case 1: s = t; CHECK(died == 1 && id(s) == 2 && t.use_count() == 2); s.reset(); CHECK(died == 1); break;
        case 2: s = std::move(t); CHECK(died == 1 && id(s) == 2 && !t); break;
        case 3: s = nullptr; CHECK(died == 1 && id(t) == 2); break;
        default: { auto x = std::move(s); s = std::move(t); t = std::move(x); CHECK(id(s) == 2 && id(t) == 1 && died == 0); } break;
        }
        if (f >= 2 && died == 1 && calls == 1) CHECK(used == tag || used == tag + 1);
    }
    CHECK(died == 2);
}
ENTRY h_two() { two<FLAV>(); }
