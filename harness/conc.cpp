// C13: threads with their own shared and weak pointers to one object.
#include "sv.h"
#include <xmem/shared_ptr.hpp>
template <class T> using sp = xmem::shared_ptr<T>;
template <class T> using wp = xmem::weak_ptr<T>;

static int gone[8];
struct B { int bpad = 3; virtual ~B() = default; };
struct O : B, xmem::enable_shared_from {
    int id, magic = 4711;
    explicit O(int id) : id(id) {}
    int f[4] = {};
    ~O() {
        CHECK(magic == 4711);
        CHECK(gone[id] == 0);
        int s = f[0] + f[1] + f[2] + f[3];
        CHECK(s >= 0);
        magic = 0;
        gone[id] = gone[id] + 1;
    }
    sp<O> self() { return shared_from(this); }
    wp<O> wself() { return weak_from(this); }
};
struct Del { int tag; void operator()(O* p) const { CHECK(tag == 99); delete p; } };

template <class T> struct slot { alignas(T) unsigned char b[sizeof(T)]; T& operator*() { return *reinterpret_cast<T*>(b); } template <class... A> void init(A&&... a) { new (b) T(std::forward<A>(a)...); } void fini() { (**this).~T(); } };
static slot<sp<O>> ps[3];
static slot<wp<O>> ws[3];
static int kind, opc[3], nthr;

static sp<O> create() {
    switch (kind) {
    case 0: return xmem::make_shared<O>(1);
    case 1: return sp<O>(new O(1));
    case 2: return sp<O>(new O(1), Del{99});
    default: { xmem::unique_ptr<O> u(new O(1)); return sp<O>(std::move(u)); }
    }
}
static void use(O* p, int t) {
    CHECK(p->magic == 4711);
    p->f[t] = p->f[t] + 1;
}

// ---- operations of a thread on its own owner
static const int NOWN = 16;
static void own_op(int t, int k) {
    sp<O>& p = *ps[t];
    switch (k) {
    case 0: use(p.get(), t); p.reset(); break;
    case 1: { sp<O> c(p); use(c.get(), t); p.reset(); use(c.get(), t); } break;
    case 2: { sp<O> c(std::move(p)); use(c.get(), t); } break;
    case 3: { sp<O> c; c.swap(p); use(c.get(), t); } break;
    case 4: { wp<O> w(p); p.reset(); } break;
    case 5: { sp<int> a(p, &p->f[t]); p.reset(); *a = *a + 1; } break;
    case 6: use(p.get(), t); p = xmem::make_shared<O>(2 + t); use(p.get(), t); p.reset(); break;
    case 7: { sp<B> b(std::move(p)); CHECK(b->bpad == 3); sp<O> c = xmem::static_pointer_cast<O>(b); use(c.get(), t); } break;
    case 8: { sp<O> c = p->self(); CHECK(c.get() == p.get()); p = std::move(c); use(p.get(), t); p = nullptr; } break;
    case 9: { wp<O> w(p); sp<O> c = w.lock(); CHECK(c.get() == p.get()); p.reset(); use(c.get(), t); } break;
    case 10: CHECK(p.use_count() >= 1); use(p.get(), t); break;             // kept
    case 11: { sp<B> b; b = p; sp<O> c; c = p; p.reset(); use(c.get(), t); c = xmem::dynamic_pointer_cast<O>(b); b.reset(); use(c.get(), t); } break;
    case 12: { sp<O> c; c = std::move(p); p = c; c.reset(); use(p.get(), t); p.reset(new O(2 + t)); p.reset(); } break;
    case 13: *ws[t] = p; p.reset(); CHECK((*ws[t]).owner()); (*ws[t]).reset(); break;
    case 14: { sp<O> c(p); sp<O> d(c); c.swap(p); c.reset(); p.reset(); use(d.get(), t); } break;
    case 15: { wp<O> w = p->wself(); wp<O> v(std::move(w)); p.reset(); CHECK(!w.owner()); } break;
    }
}
static void setup(int n) {
    nthr = n;
    sp<O> p = create();
    for (int t = 0; t < n; ++t) { ps[t].init(); ws[t].init(); *ps[t] = p; }
}
// what is left is read after all threads have ended; memory that is still there then is reported as a leak
static void final(int expect) { CHECK(gone[1] == expect); for (int t = 0; t < nthr; ++t) CHECK(gone[2 + t] == (opc[t] == 6 || opc[t] == 12)); }

// two threads, any pair of operations
ENTRY c_own2_init() {
    opc[0] = int(sv_choose(NOWN)); opc[1] = int(sv_choose(NOWN));
#ifdef QUICK
    sv_assume(opc[0] == 0 || opc[0] == 4 || (opc[0] == opc[1] && opc[0] != 11 && opc[0] != 14));
#endif
    sv_assume(opc[0] <= opc[1]);
    kind = (opc[0] * 5 + opc[1]) % 4;
    setup(2);
    if (opc[0] == 10 || opc[1] == 10) sv_allow_leak();
}
ENTRY c_own2_t0() { own_op(0, opc[0]); }
ENTRY c_own2_t1() { own_op(1, opc[1]); }
ENTRY c_own2_post() {
    bool kept = opc[0] == 10 || opc[1] == 10;
    final(!kept);
    if (!kept) sv_reach("own2 gone"); else sv_reach("own2 kept");
}
// each kind of creation with the plain drop
ENTRY c_kind_init() { kind = int(sv_choose(4)); setup(2); }
ENTRY c_kind_t0() { own_op(0, 0); }
ENTRY c_kind_t1() { own_op(1, 1); }
ENTRY c_kind_post() { final(1); }
// three threads
ENTRY c_own3_init() {
    static const int sel[4] = {0, 1, 4, 2};
    for (int i = 0; i < 3; ++i) opc[i] = sel[sv_choose(3)];
#ifdef QUICK
    sv_assume(opc[0] != opc[2]);
#endif
    sv_assume(opc[0] <= opc[1] && opc[1] <= opc[2]);
    kind = 0; setup(3);
}
ENTRY c_own3_t0() { own_op(0, opc[0]); }
ENTRY c_own3_t1() { own_op(1, opc[1]); }
ENTRY c_own3_t2() { own_op(2, opc[2]); }
ENTRY c_own3_post() { final(1); sv_reach("own3"); }
// one thread makes a copy for another out of a pointer both may read
static slot<sp<O>> common;
ENTRY c_shared_init() { kind = 0; setup(2); common.init(*ps[0]); (*ps[0]).reset(); (*ps[1]).reset(); opc[0] = int(sv_choose(4)); opc[1] = int(sv_choose(4)); sv_assume(opc[0] <= opc[1]); sv_allow_leak(); }
static void shared_read(int t) {
    const sp<O>& c = *common;
    switch (opc[t]) {
    case 0: { sp<O> a(c); use(a.get(), t); } break;
    case 1: { sp<O> a; a = c; wp<O> w(a); sp<O> b = w.lock(); CHECK(b.get() == c.get()); } break;
    case 2: { wp<O> w(c); CHECK(!w.expired()); CHECK(c.use_count() >= 1); } break;
    case 3: { sp<B> a(c); sp<int> i(c, &c->f[t]); a.reset(); *i = 7; } break;
    }
}
ENTRY c_shared_t0() { shared_read(0); }
ENTRY c_shared_t1() { shared_read(1); }
ENTRY c_shared_post() { final(0); CHECK((*common).use_count() == 1); }
// handing over: a thread publishes its owner through an atomic flag, the other one takes it
static std::atomic<int> flag; static int took;
ENTRY c_hand_init() { kind = int(sv_choose(2)); setup(2); (*ps[1]).reset(); opc[0] = int(sv_choose(3)); sv_allow_leak(); }
ENTRY c_hand_t0() {
    sp<O>& p = *ps[0];
    use(p.get(), 0);
    switch (opc[0]) {
    case 0: *ps[1] = p; flag.store(1, std::memory_order_release); use(p.get(), 0); p.reset(); break;
    case 1: *ps[1] = std::move(p); flag.store(1, std::memory_order_release); break;
    case 2: (*ps[1]).swap(p); flag.store(1, std::memory_order_release); break;
    }
}
ENTRY c_hand_t1() {
    if (flag.load(std::memory_order_acquire)) { use((*ps[1]).get(), 1); (*ps[1]).reset(); took = 1; sv_reach("handed over"); }
}
ENTRY c_hand_post() { final(took); }
