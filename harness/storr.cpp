// C16 (XS=0) and C22 (XS=1): destructors that use the storage, triggered by operations of several threads on it.  An operation that
// destroys an object under the storage's lock, in any interleaving, waits for itself.
#include "lin.h"
#if XS == 0
#include <xmem/shared_ptr.hpp>
template <class T> using sp = xmem::shared_ptr<T>;
template <class T> using stor = xmem::atomic_shared_ptr_storage<T>;
template <class T, class... A> static sp<T> mk(A... a) { return xmem::make_shared<T>(a...); }
#else
#include <xmem/std_helpers.hpp>
template <class T> using sp = std::shared_ptr<T>;
template <class T> using stor = xstd::atomic_shared_ptr_storage<T>;
template <class T, class... A> static sp<T> mk(A... a) { return std::make_shared<T>(a...); }
#endif
struct O;
template <class T> struct slot { alignas(T) unsigned char b[sizeof(T)]; T& operator*() { return *reinterpret_cast<T*>(b); } template <class... A> void init(A&&... a) { new (b) T(std::forward<A>(a)...); } };
static slot<stor<O>> S;
static int gone[4], form[2];
static bool armed;
struct O {
    int id;
    explicit O(int id) : id(id) {}
    ~O() {
        CHECK(gone[id] == 0);
        gone[id] = gone[id] + 1;
        if (armed) { sp<O> p = (*S).load(); CHECK(!p || p->id != id); }
    }
};
enum { STORE, XCHG, CASF, STORE0, CASN };
static void run(int t) {
    stor<O>& s = *S;
    switch (form[t]) {
    case STORE: s.store(mk<O>(2 + t)); break;
    case STORE0: s.store(nullptr); break;
    case XCHG: s.exchange(mk<O>(2 + t)).reset(); break;
    case CASN: { sp<O> e; s.compare_exchange(e, mk<O>(2 + t)); } break;       // expects it empty
    case CASF: { sp<O> e = mk<O>(2 + t); s.compare_exchange(e, nullptr); } break; // fails: its own object goes
    }
}
static void setup(const int* set, int n) {
    S.init(mk<O>(1));
    form[0] = set[sv_choose(n)]; form[1] = set[sv_choose(n)];
    sv_assume(form[0] <= form[1]);
    armed = true;
}
static void post() {
    armed = false;
    stor<O>& s = *S;
    sp<O> p = s.exchange(nullptr);
    if (p) CHECK(p.use_count() == 1 && gone[p->id] == 0);
    p.reset();
    CHECK(gone[1] == 1);
    for (int t = 0; t < 2; ++t) CHECK(gone[2 + t] == (form[t] != STORE0));
    sv_reach("settled");
}
ENTRY c_use_init() {
    static const int set[4] = {STORE, XCHG, CASF, STORE0};
    setup(set, 4);
}
ENTRY c_use_t0() { run(0); }
ENTRY c_use_t1() { run(1); }
ENTRY c_use_post() { post(); }
ENTRY c_Tuse_init() {
    static const int set[5] = {STORE, XCHG, CASF, STORE0, CASN};
    setup(set, 5);
}
ENTRY c_Tuse_t0() { run(0); }
ENTRY c_Tuse_t1() { run(1); }
ENTRY c_Tuse_post() { post(); }
