// C15 (XS=0) and the concurrent part of C22 (XS=1): one atomic pointer storage, several threads.
#include "lin.h"
#if XS == 0
#include <xmem/shared_ptr.hpp>
template <class T> using sp = xmem::shared_ptr<T>;
template <class T> using wp = xmem::weak_ptr<T>;
template <class T> using stor = xmem::atomic_shared_ptr_storage<T>;
template <class T, class... A> static sp<T> mk(A... a) { return xmem::make_shared<T>(a...); }
#else
#include <xmem/std_helpers.hpp>
template <class T> using sp = std::shared_ptr<T>;
template <class T> using wp = std::weak_ptr<T>;
template <class T> using stor = xstd::atomic_shared_ptr_storage<T>;
template <class T, class... A> static sp<T> mk(A... a) { return std::make_shared<T>(a...); }
#endif
// objects: 1 is there from the start, thread t makes number 2+2t and 3+2t
static int gone[8], made[8];
struct O {
    int id, seen[3] = {};
    explicit O(int id) : id(id) {}
    ~O() {
        CHECK(gone[id] == 0);
        CHECK(seen[0] + seen[1] + seen[2] < 99);
        gone[id] = gone[id] + 1;
    }
};
template <class T> struct slot { alignas(T) unsigned char b[sizeof(T)]; T& operator*() { return *reinterpret_cast<T*>(b); } template <class... A> void init(A&&... a) { new (b) T(std::forward<A>(a)...); } };
static slot<stor<O>> S;
static slot<sp<O>> first[3];        // every thread's own copy of what is stored at the start
static int opc[3][2], len[3], nthr, full;
static uint32_t r_0[2], r_1[2], r_2[2], fin;
static uint32_t* const res[3] = {r_0, r_1, r_2};
static uint32_t idof(const sp<O>& p, int t) {
    if (!p) return 0;
    p->seen[t] = p->seen[t] + 1;
    return uint32_t(p->id);
}
enum { LOAD, STORE, XCHG, CAS1, CASH, STORE0, XCHG0, CAS0, CASN, STORE1, LOADK, NOP_ };
static int newid(int t, int i) { return 2 + 2 * t + i; }
static void run(int t) {
    stor<O>& s = *S;
    sp<O> held;                     // what the thread's last load or exchange returned
    for (int i = 0; i < len[t]; ++i) {
        uint32_t& r = res[t][i];
        switch (opc[t][i]) {
        case LOAD: held = s.load(); r = idof(held, t); break;
        case LOADK: { const stor<O>& c = s; r = idof(c.load(), t); } break;
        case STORE: s.store(mk<O>(newid(t, i))); break;
        case XCHG: held = s.exchange(mk<O>(newid(t, i))); r = idof(held, t); break;
        case CAS1: { sp<O> e = *first[t]; bool ok = s.compare_exchange(e, mk<O>(newid(t, i))); r = idof(e, t) | uint32_t(ok) << 8; held = std::move(e); } break;
        case CASH: { sp<O> e = held; bool ok = s.compare_exchange(e, mk<O>(newid(t, i))); r = idof(e, t) | uint32_t(ok) << 8; held = std::move(e); } break;
        case CASN: { sp<O> e; bool ok = s.compare_exchange(e, mk<O>(newid(t, i))); r = idof(e, t) | uint32_t(ok) << 8; held = std::move(e); } break;
        case CAS0: { sp<O> e = *first[t]; bool ok = s.compare_exchange(e, nullptr); r = idof(e, t) | uint32_t(ok) << 8; held = std::move(e); } break;
        case STORE0: s.store(nullptr); break;
        case STORE1: s.store(*first[t]); break;
        case XCHG0: held = s.exchange(nullptr); r = idof(held, t); break;
        }
    }
    if (*first[t]) (*first[t]).reset();
}
// the storage as a sequential object: its content, and each thread's last result
struct St { uint32_t v, h[3]; };
struct Apply {
    uint32_t operator()(St& s, int t, int i) const {
        uint32_t r = res[t][i];
        switch (opc[t][i]) {
        case LOAD: s.h[t] = s.v; return mask(r == s.v);
        case LOADK: return mask(r == s.v);
        case STORE: s.v = newid(t, i); return ~0u;
        case STORE0: s.v = 0; return ~0u;
        case STORE1: s.v = full; return ~0u;
        case XCHG: { uint32_t o = s.v; s.h[t] = o; s.v = newid(t, i); return mask(r == o); }
        case XCHG0: { uint32_t o = s.v; s.h[t] = o; s.v = 0; return mask(r == o); }
        default: {
            uint32_t e = opc[t][i] == CASH ? s.h[t] : opc[t][i] == CASN ? 0 : uint32_t(full), o = s.v;
            uint32_t hit = mask(o == e);
            s.h[t] = o;             // the expected value on success is the held one as well
            s.v = sel(hit, opc[t][i] == CAS0 ? 0 : newid(t, i), o);
            return mask(r == (o | (hit & 0x100)));
        }
        }
    }
    uint32_t end(const St& s) const { return mask(fin == s.v); }
};
static void setup(int n, int l0, int l1, int l2) {
    nthr = n; len[0] = l0; len[1] = l1; len[2] = l2;
    sp<O> a;
    if (full) a = mk<O>(1);
    S.init(a);
    for (int t = 0; t < n; ++t) { first[t].init(); for (int i = 0; i < len[t]; ++i) if (opc[t][i] == CAS1 || opc[t][i] == CAS0 || opc[t][i] == STORE1) *first[t] = a; }
}
static void post() {
    stor<O>& s = *S;
    {
        sp<O> p = s.exchange(nullptr);
        fin = p ? uint32_t(p->id) : 0;
        CHECK(!p || p.use_count() == 1);
    }
    int pos[3] = {0, 0, 0};
    uint32_t ok = some_order(St{uint32_t(full), {0, 0, 0}}, len, pos, nthr, Apply());
    sv_check(ok != 0, "results and final content agree with some order of the operations");
    if (full) CHECK(gone[1] == 1);
    for (int t = 0; t < nthr; ++t)
        for (int i = 0; i < len[t]; ++i)
            if (opc[t][i] == STORE || opc[t][i] == XCHG || (opc[t][i] >= CAS1 && opc[t][i] <= CASH) || opc[t][i] == CASN) CHECK(gone[newid(t, i)] == 1);
    sv_reach("storage settled");
}
static void pick(int t, int i, const int* set, int n) { opc[t][i] = set[sv_choose(n)]; }
static const int all[10] = {LOAD, STORE, XCHG, CAS1, CAS0, CASN, STORE0, XCHG0, STORE1, LOADK};
// every pair of operations
ENTRY c_two_init() {
    pick(0, 0, all, 10); pick(1, 0, all, 10);
    full = 1;
#ifdef QUICK
    sv_assume((opc[0][0] <= STORE0 && opc[1][0] <= STORE0) || (opc[0][0] == STORE0 && opc[1][0] == CASN));
#endif
    sv_assume(opc[0][0] <= opc[1][0]);
    setup(2, 1, 1, 0);
}
ENTRY c_two_t0() { run(0); }
ENTRY c_two_t1() { run(1); }
ENTRY c_two_post() { post(); }
// starting empty
ENTRY c_empty_init() {
    static const int set[4] = {XCHG, CASN, LOAD, STORE};
    pick(0, 0, set, 2); pick(1, 0, set, 4);
    setup(2, 1, 1, 0);
}
ENTRY c_empty_t0() { run(0); }
ENTRY c_empty_t1() { run(1); }
ENTRY c_empty_post() { post(); }
// two operations in one thread
ENTRY c_seq_init() {
    static const int a0[3] = {LOAD, XCHG, STORE}, a1[3] = {CASH, LOAD, XCHG0}, b[4] = {XCHG, CAS1, STORE, LOAD};
    full = 1;
    pick(0, 0, a0, 3); pick(0, 1, a1, 3); pick(1, 0, b, 4);
#ifdef QUICK
    sv_assume(opc[0][1] == CASH ? opc[0][0] == LOAD && opc[1][0] != LOAD && opc[1][0] != CAS1 : opc[0][0] != LOAD && opc[0][1] == LOAD && opc[1][0] == XCHG);
#endif
    setup(2, 2, 1, 0);
}
ENTRY c_seq_t0() { run(0); }
ENTRY c_seq_t1() { run(1); }
ENTRY c_seq_post() { post(); }
// two operations in both
ENTRY c_Tseq2_init() {
    static const int a[5] = {LOAD, XCHG, STORE, CAS1, CASH};
    full = 1;
    pick(0, 0, a, 3); pick(0, 1, a, 5); pick(1, 0, a, 4); pick(1, 1, a, 5);
    // a selection: one thread goes on with what it got, the other one replaces the content twice
    sv_assume(opc[0][0] == LOAD && opc[0][1] >= CAS1 && opc[1][0] != LOAD && opc[1][1] <= XCHG);
    setup(2, 2, 2, 0);
}
ENTRY c_Tseq2_t0() { run(0); }
ENTRY c_Tseq2_t1() { run(1); }
ENTRY c_Tseq2_post() { post(); }
// three threads: two readers while the content goes, and others
ENTRY c_three_init() {
    static const int sel[4][3] = {{LOAD, LOAD, STORE0}, {LOAD, LOAD, XCHG0}, {LOAD, STORE0, XCHG0}, {LOAD, LOAD, CAS0}};
    full = 1;
    int k = int(sv_choose(4));
    for (int t = 0; t < 3; ++t) opc[t][0] = sel[k][t];
    setup(3, 1, 1, 1);
}
ENTRY c_three_t0() { run(0); }
ENTRY c_three_t1() { run(1); }
ENTRY c_three_t2() { run(2); }
ENTRY c_three_post() { post(); }
ENTRY c_Tthree_init() {
    static const int a[4] = {LOAD, XCHG, CAS1, STORE};
    full = 1;
    for (int t = 0; t < 3; ++t) pick(t, 0, a, 4);
    sv_assume(opc[0][0] <= opc[1][0] && opc[1][0] <= opc[2][0]);
    setup(3, 1, 1, 1);
}
ENTRY c_Tthree_t0() { run(0); }
ENTRY c_Tthree_t1() { run(1); }
ENTRY c_Tthree_t2() { run(2); }
ENTRY c_Tthree_post() { post(); }
