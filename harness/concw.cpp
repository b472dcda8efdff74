// C14: weak pointers locked, copied and dropped while the last owners go away.
#include "sv.h"
#include <xmem/shared_ptr.hpp>
template <class T> using sp = xmem::shared_ptr<T>;
template <class T> using wp = xmem::weak_ptr<T>;

static int gone;
struct B { int bpad = 3; virtual ~B() = default; };
struct O : B, xmem::enable_shared_from_this<O> {
    int magic = 4711, f[4] = {};
    ~O() {
        CHECK(magic == 4711);
        CHECK(gone == 0);
        int s = f[0] + f[1] + f[2] + f[3];
        CHECK(s >= 0);
        magic = 0;
        gone = gone + 1;
    }
};
template <class T> struct slot { alignas(T) unsigned char b[sizeof(T)]; T& operator*() { return *reinterpret_cast<T*>(b); } void init() { new (b) T(); } };
static slot<sp<O>> ps[3];
static slot<wp<O>> ws[3];
static int kind, opc[3], got[3], none[3], kept[3];
static void use(O* p, int t) { CHECK(p->magic == 4711); p->f[t] = p->f[t] + 1; }

// operations on the thread's own weak pointer
static const int NW = 12;
static void weak_op(int t, int k) {
    wp<O>& w = *ws[t];
    switch (k) {
    case 0: if (sp<O> p = w.lock()) { use(p.get(), t); got[t] = 1; } else none[t] = 1; w.reset(); break;
    case 1: { wp<O> c(w); w.reset(); if (sp<O> p = c.lock()) { CHECK(p.use_count() >= 1); use(p.get(), t); got[t] = 1; } } break;
    case 2: w.reset(); break;
    case 3: { wp<O> c(std::move(w)); wp<B> b(std::move(c)); if (sp<B> p = b.lock()) { CHECK(p->bpad == 3); got[t] = 1; } } break;
    case 4: if (w.expired()) { CHECK(!w.lock()); none[t] = 1; } w.reset(); break;
    case 5: { sp<O> p = w.lock(); w.reset(); if (p) { *ps[t] = std::move(p); kept[t] = 1; } } break;      // keeps what it got
    case 6: { sp<O> p = w.lock(); if (!p) { CHECK(w.expired()); CHECK(!w.lock()); none[t] = 1; } else { sp<O> q(p); p.reset(); use(q.get(), t); } w.reset(); } break;
    case 7: if (sp<O> p = w.lock()) { wp<O> v(p); w = v; p.reset(); } w.reset(); break;
    case 8: { wp<O> c; c.swap(w); wp<O> d; d = c; c.reset(); if (sp<O> p = d.lock()) use(p.get(), t); } break;
    case 9: if (sp<O> p = w.lock()) { sp<O> q = p->shared_from_this(); CHECK(q.get() == p.get()); p.reset(); use(q.get(), t); } w.reset(); break;
    case 10: { wp<const O> c; c = w; w = wp<O>(); sp<const O> p = c.lock(); if (p) CHECK(p->magic == 4711); } break;
    case 11: { wp<O> c; c = std::move(w); w = c; CHECK(w.owner() == c.owner()); c.reset(); w.reset(); } break;
    }
}
static const int NS = 5;
static void own_op(int t, int k) {
    sp<O>& p = *ps[t];
    switch (k) {
    case 0: use(p.get(), t); p.reset(); break;
    case 1: { wp<O> w(p); p.reset(); if (sp<O> q = w.lock()) use(q.get(), t); } break;     // weak pointer outlives its owner
    case 2: { sp<O> c(std::move(p)); use(c.get(), t); } break;
    case 3: { wp<O> w = p->weak_from_this(); p = nullptr; wp<O> v(std::move(w)); if (v.lock()) got[t] = 1; } break;
    case 4: { wp<int> w(p, &p->f[t]); p.reset(); if (sp<int> q = w.lock()) *q = *q + 1; } break;
    }
}
static void setup(int n, int owners) {
    sp<O> p = kind ? sp<O>(new O) : xmem::make_shared<O>();
    for (int t = 0; t < n; ++t) { ps[t].init(); ws[t].init(); if (t < owners) *ps[t] = p; else *ws[t] = p; }
}

// the last owner against one weak pointer
ENTRY c_lock_init() { opc[0] = int(sv_choose(NS)); opc[1] = int(sv_choose(NW)); kind = (opc[0] + opc[1]) & 1;
#ifdef QUICK
    sv_assume(opc[0] < 2 || opc[1] == 0);
#endif
    setup(2, 1); if (opc[1] == 5) sv_allow_leak(); }
ENTRY c_lock_t0() { own_op(0, opc[0]); }
ENTRY c_lock_t1() { weak_op(1, opc[1]); }
ENTRY c_lock_post() {
    CHECK(gone == !kept[1]);
    CHECK(!(got[1] && none[1]));
    if (got[1]) sv_reach("locked in time"); if (none[1]) sv_reach("too late"); if (kept[1]) sv_reach("kept alive");
}
// the last owner against two weak pointers
ENTRY c_lock2_init() {
    static const int sel[4] = {0, 2, 1, 4};
    opc[0] = 0; opc[1] = sel[sv_choose(4)]; opc[2] = sel[sv_choose(4)]; sv_assume(opc[1] <= opc[2]);
#ifdef QUICK
    sv_assume(opc[2] <= 2 && opc[1] == 0);
#endif
    setup(3, 1);
}
ENTRY c_lock2_t0() { own_op(0, opc[0]); }
ENTRY c_lock2_t1() { weak_op(1, opc[1]); }
ENTRY c_lock2_t2() { weak_op(2, opc[2]); }
ENTRY c_lock2_post() { CHECK(gone == 1); }
// two owners against a weak pointer
ENTRY c_own2w_init() {
    static const int sel[4] = {0, 2, 1, 6};
    opc[0] = int(sv_choose(2)); opc[1] = int(sv_choose(2)); opc[2] = sel[sv_choose(4)]; sv_assume(opc[0] <= opc[1]);
#ifdef QUICK
    sv_assume(opc[1] == 0 && opc[2] <= 1);
#endif
    setup(3, 2);
}
ENTRY c_own2w_t0() { own_op(0, opc[0]); }
ENTRY c_own2w_t1() { own_op(1, opc[1]); }
ENTRY c_own2w_t2() { weak_op(2, opc[2]); }
ENTRY c_own2w_post() { CHECK(gone == 1); }
// only weak pointers left: the memory goes with the last one, after all accesses
ENTRY c_weak_init() { opc[0] = int(sv_choose(NW)); opc[1] = int(sv_choose(NW)); sv_assume(opc[0] <= opc[1]);
#ifdef QUICK
    sv_assume(opc[0] == 2 || opc[0] == opc[1]);
#endif
    kind = opc[1] & 1; setup(2, 0); }
ENTRY c_weak_t0() { weak_op(0, opc[0]); }
ENTRY c_weak_t1() { weak_op(1, opc[1]); }
ENTRY c_weak_post() { CHECK(gone == 1); CHECK(!got[0]); CHECK(!got[1]); }
// conversion to a virtual base holds the object alive meanwhile: the conversion may be what lets it go, and its destructor uses the
// pointers of the thread
struct VB { int vpad = 3; virtual ~VB() = default; };
struct VO : virtual VB {
    int magic = 4711;
    ~VO();
};
static slot<sp<VO>> vp; static slot<wp<VO>> vw; static slot<wp<VB>> vb; static int vend;
VO::~VO() {
    CHECK(magic == 4711); CHECK(gone == 0);
    magic = 0; gone = gone + 1;
    if (sv_tid() == 1) {
        CHECK(!(*vw).lock());
        (*vw).reset();
        if (opc[2]) { CHECK((*vb).use_count() == 0); (*vb).reset(); }
        vend = 1;
    }
}
static void conv_check(wp<VB>& b, bool had) {
    sp<VB> p = b.lock();
    if (p) { CHECK(p->vpad == 3); CHECK(b.owner() == p.owner()); got[1] = 1; }
    else none[1] = 1;
    if (vend) { CHECK(!p); sv_reach("let go by the conversion"); }
    (void)had;
}
ENTRY c_vconv_init() {
    opc[1] = int(sv_choose(6)); opc[2] = opc[1] >= 2; kind = opc[1] & 1;
    sp<VO> p = kind ? sp<VO>(new VO) : xmem::make_shared<VO>();
    vp.init(); vw.init(); vb.init();
    *vw = p; *vp = std::move(p);
    if (opc[1] == 2 || opc[1] == 3) { sp<VB> o(new VB); *vb = o; }      // an expired one, the last reference to its control block
}
ENTRY c_vconv_t0() { (*vp).reset(); }
ENTRY c_vconv_t1() {
    switch (opc[1]) {
    case 0: { wp<VB> b(*vw); conv_check(b, true); (*vw).reset(); } break;
    case 1: { wp<VB> b(std::move(*vw)); CHECK(!*vw); conv_check(b, true); } break;
    case 2: case 4: *vb = *vw; conv_check(*vb, true); (*vb).reset(); (*vw).reset(); break;
    case 3: case 5: *vb = std::move(*vw); CHECK(!*vw); conv_check(*vb, true); (*vb).reset(); break;
    }
}
ENTRY c_vconv_post() { CHECK(gone == 1); if (got[1]) sv_reach("converted"); if (none[1]) sv_reach("converted too late"); }
