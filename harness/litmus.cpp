// self-tests of the concurrency engine: OK_* must be decided clean, BAD_* must be found
#include "sv.h"
using std::atomic;
static atomic<int> x, y, z; static int d, r0, r1, r2, r3; static int* hp;
#define RLX std::memory_order_relaxed
#define ACQ std::memory_order_acquire
#define REL std::memory_order_release
#define AR std::memory_order_acq_rel
#define SC std::memory_order_seq_cst
#define INIT(n) ENTRY c_##n##_init()
#define T0(n) ENTRY c_##n##_t0()
#define T1(n) ENTRY c_##n##_t1()
#define T2(n) ENTRY c_##n##_t2()
#define T3(n) ENTRY c_##n##_t3()
#define POST(n) ENTRY c_##n##_post()
// message passing
INIT(OK_mp) {} T0(OK_mp) { d = 1; x.store(1, REL); } T1(OK_mp) { if (x.load(ACQ)) { CHECK(d == 1); sv_reach("mp"); } } POST(OK_mp) {}
INIT(BAD_mp1) {} T0(BAD_mp1) { d = 1; x.store(1, RLX); } T1(BAD_mp1) { if (x.load(ACQ)) r0 = d; } POST(BAD_mp1) {}
INIT(BAD_mp2) {} T0(BAD_mp2) { d = 1; x.store(1, REL); } T1(BAD_mp2) { if (x.load(RLX)) r0 = d; } POST(BAD_mp2) {}
// store buffering
INIT(BAD_sb) {} T0(BAD_sb) { x.store(1, REL); r0 = y.load(ACQ); } T1(BAD_sb) { y.store(1, REL); r1 = x.load(ACQ); } POST(BAD_sb) { CHECK(r0 || r1); }
INIT(OK_sbsc) {} T0(OK_sbsc) { x.store(1, SC); r0 = y.load(SC); } T1(OK_sbsc) { y.store(1, SC); r1 = x.load(SC); } POST(OK_sbsc) { CHECK(r0 || r1); }
INIT(OK_sbf) {} T0(OK_sbf) { x.store(1, RLX); atomic_thread_fence(SC); r0 = y.load(RLX); } T1(OK_sbf) { y.store(1, RLX); atomic_thread_fence(SC); r1 = x.load(RLX); } POST(OK_sbf) { CHECK(r0 || r1); }
INIT(BAD_sbf) {} T0(BAD_sbf) { x.store(1, RLX); atomic_thread_fence(AR); r0 = y.load(RLX); } T1(BAD_sbf) { y.store(1, RLX); atomic_thread_fence(AR); r1 = x.load(RLX); } POST(BAD_sbf) { CHECK(r0 || r1); }
// load buffering is excluded (no thin air)
INIT(OK_lb) {} T0(OK_lb) { r0 = x.load(RLX); y.store(1, RLX); } T1(OK_lb) { r1 = y.load(RLX); x.store(1, RLX); } POST(OK_lb) { CHECK(!(r0 && r1)); }
// coherence of reads
INIT(OK_corr) {} T0(OK_corr) { x.store(1, RLX); x.store(2, RLX); } T1(OK_corr) { r0 = x.load(RLX); r1 = x.load(RLX); } POST(OK_corr) { CHECK(r1 >= r0); CHECK(x.load(RLX) == 2); }
INIT(BAD_2loc) {} T0(BAD_2loc) { x.store(1, RLX); y.store(1, RLX); } T1(BAD_2loc) { r0 = y.load(RLX); r1 = x.load(RLX); } POST(BAD_2loc) { CHECK(r1 >= r0); }
// iriw: allowed with acquire/release, forbidden with seq_cst
INIT(BAD_iriw) {} T0(BAD_iriw) { x.store(1, REL); } T1(BAD_iriw) { y.store(1, REL); } T2(BAD_iriw) { r0 = x.load(ACQ); r1 = y.load(ACQ); } T3(BAD_iriw) { r2 = y.load(ACQ); r3 = x.load(ACQ); } POST(BAD_iriw) { CHECK(!(r0 && !r1 && r2 && !r3)); }
INIT(OK_iriw) {} T0(OK_iriw) { x.store(1, SC); } T1(OK_iriw) { y.store(1, SC); } T2(OK_iriw) { r0 = x.load(SC); r1 = y.load(SC); } T3(OK_iriw) { r2 = y.load(SC); r3 = x.load(SC); } POST(OK_iriw) { CHECK(!(r0 && !r1 && r2 && !r3)); }
// release sequence through a relaxed RMW, and not through a plain store
INIT(OK_rs) {} T0(OK_rs) { d = 1; x.store(1, REL); } T1(OK_rs) { x.fetch_add(1, RLX); } T2(OK_rs) { if (x.load(ACQ) == 2) { CHECK(d == 1); sv_reach("rs"); } } POST(OK_rs) {}
INIT(BAD_rs) {} T0(BAD_rs) { d = 1; x.store(1, REL); } T1(BAD_rs) { if (x.load(RLX) == 1) x.store(2, RLX); } T2(BAD_rs) { if (x.load(ACQ) == 2) r0 = d; } POST(BAD_rs) {}
// ... also one continued by the releasing thread itself, which carries what came before the release and no more
INIT(OK_rsown) {} T0(OK_rsown) { d = 1; x.store(1, REL); x.fetch_add(1, RLX); } T1(OK_rsown) { if (x.load(ACQ) == 2) { CHECK(d == 1); sv_reach("rsown"); } } POST(OK_rsown) {}
INIT(OK_rsown3) {} T0(OK_rsown3) { d = 1; x.store(1, REL); x.fetch_add(1, RLX); } T1(OK_rsown3) { x.fetch_add(2, RLX); } T2(OK_rsown3) { int v = x.load(ACQ); if (v == 1 || v == 4) r0 = d; } POST(OK_rsown3) {}
INIT(BAD_rsown) {} T0(BAD_rsown) { x.store(1, REL); d = 1; x.fetch_add(1, RLX); } T1(BAD_rsown) { if (x.load(ACQ) == 2) r0 = d; } POST(BAD_rsown) {}
INIT(BAD_rsown2) {} T0(BAD_rsown2) { d = 1; x.store(1, RLX); x.fetch_add(1, RLX); } T1(BAD_rsown2) { if (x.load(ACQ) == 2) r0 = d; } POST(BAD_rsown2) {}
// the locks of the platform
static pthread_mutex_t mx; static pthread_rwlock_t rw;
INIT(OK_mx) {} T0(OK_mx) { pthread_mutex_lock(&mx); d = d + 1; pthread_mutex_unlock(&mx); } T1(OK_mx) { pthread_mutex_lock(&mx); d = d + 1; pthread_mutex_unlock(&mx); } POST(OK_mx) { CHECK(d == 2); }
INIT(BAD_mx) {} T0(BAD_mx) { pthread_mutex_lock(&mx); d = d + 1; pthread_mutex_unlock(&mx); } T1(BAD_mx) { if (pthread_mutex_trylock(&mx)) r0 = d; else pthread_mutex_unlock(&mx); } POST(BAD_mx) {}
INIT(OK_rw) {} T0(OK_rw) { pthread_rwlock_wrlock(&rw); d = d + 1; pthread_rwlock_unlock(&rw); } T1(OK_rw) { pthread_rwlock_rdlock(&rw); r0 = d; pthread_rwlock_unlock(&rw); } T2(OK_rw) { pthread_rwlock_rdlock(&rw); r1 = d; pthread_rwlock_unlock(&rw); } POST(OK_rw) { CHECK(d == 1); }
INIT(BAD_rw) {} T0(BAD_rw) { pthread_rwlock_rdlock(&rw); d = d + 1; pthread_rwlock_unlock(&rw); } T1(BAD_rw) { pthread_rwlock_rdlock(&rw); r0 = d; pthread_rwlock_unlock(&rw); } POST(BAD_rw) {}
// fences
INIT(OK_fence) {} T0(OK_fence) { d = 1; atomic_thread_fence(REL); x.store(1, RLX); } T1(OK_fence) { if (x.load(RLX)) { atomic_thread_fence(ACQ); CHECK(d == 1); } } POST(OK_fence) {}
INIT(BAD_fence) {} T0(BAD_fence) { d = 1; x.store(1, RLX); atomic_thread_fence(REL); } T1(BAD_fence) { if (x.load(RLX)) { atomic_thread_fence(ACQ); r0 = d; } } POST(BAD_fence) {}
// RMW atomicity
INIT(OK_rmw) {} T0(OK_rmw) { x.fetch_add(1, RLX); } T1(OK_rmw) { x.fetch_add(1, RLX); } T2(OK_rmw) { x.fetch_add(1, RLX); } POST(OK_rmw) { CHECK(x.load(RLX) == 3); }
INIT(BAD_rmw) {} T0(BAD_rmw) { x.store(x.load(RLX) + 1, RLX); } T1(BAD_rmw) { x.fetch_add(1, RLX); } POST(BAD_rmw) { CHECK(x.load(RLX) == 2); }
INIT(OK_cas) {} T0(OK_cas) { int e = 0; r0 = x.compare_exchange_strong(e, 1, RLX); } T1(OK_cas) { int e = 0; r1 = x.compare_exchange_strong(e, 2, RLX); } POST(OK_cas) { CHECK(r0 + r1 == 1); CHECK(x.load(RLX) == (r0 ? 1 : 2)); }
INIT(BAD_weakcas) {} T0(BAD_weakcas) { int e = 0; r0 = x.compare_exchange_weak(e, 1, RLX); } T1(BAD_weakcas) { int e = 0; r1 = x.compare_exchange_weak(e, 2, RLX); } POST(BAD_weakcas) { CHECK(r0 + r1 == 1); }
// reference count: last one out frees
INIT(OK_rc) { hp = new int(5); x.store(2, RLX); } T0(OK_rc) { r0 = *hp; if (x.fetch_sub(1, AR) == 1) delete hp; } T1(OK_rc) { r1 = *hp; if (x.fetch_sub(1, AR) == 1) { *hp = 3; delete hp; } } POST(OK_rc) {}
INIT(BAD_rc) { hp = new int(5); x.store(2, RLX); } T0(BAD_rc) { r0 = *hp; if (x.fetch_sub(1, RLX) == 1) delete hp; } T1(BAD_rc) { r1 = *hp; if (x.fetch_sub(1, AR) == 1) delete hp; } POST(BAD_rc) {}
INIT(BAD_leak) { hp = new int(5); x.store(2, RLX); } T0(BAD_leak) { if (x.fetch_sub(1, AR) == 1) delete hp; } T1(BAD_leak) { if (x.fetch_sub(1, AR) == 0) delete hp; } POST(BAD_leak) {}
INIT(BAD_dfree) { hp = new int(5); } T0(BAD_dfree) { if (x.load(ACQ) == 0) { x.store(1, REL); delete hp; } } T1(BAD_dfree) { if (x.load(ACQ) == 0) { x.store(1, REL); delete hp; } } POST(BAD_dfree) {}
INIT(OK_rcf) { hp = new int(5); x.store(2, RLX); } T0(OK_rcf) { r0 = *hp; if (x.fetch_sub(1, REL) == 1) { atomic_thread_fence(ACQ); delete hp; } } T1(OK_rcf) { r1 = *hp; if (x.fetch_sub(1, REL) == 1) { atomic_thread_fence(ACQ); delete hp; } } POST(OK_rcf) {}
// publication of memory allocated in a thread
static atomic<int*> px;
INIT(OK_pub) {} T0(OK_pub) { px.store(new int(7), REL); } T1(OK_pub) { if (int* p = px.load(ACQ)) { CHECK(*p == 7); sv_reach("pub"); } } POST(OK_pub) { delete px.load(RLX); }
INIT(BAD_pub) {} T0(BAD_pub) { px.store(new int(7), RLX); } T1(BAD_pub) { if (int* p = px.load(ACQ)) r0 = *p; } POST(BAD_pub) { delete px.load(RLX); }
// locks
static void svlock_lock() { while (x.exchange(1, ACQ)); }
static void svlock_ttas() { for (;;) { if (!x.exchange(1, ACQ)) return; while (x.load(RLX)); } }
INIT(OK_lock) {} T0(OK_lock) { svlock_lock(); d = d + 1; x.store(0, REL); } T1(OK_lock) { svlock_lock(); d = d + 1; x.store(0, REL); } POST(OK_lock) { CHECK(d == 2); }
INIT(OK_ttas) {} T0(OK_ttas) { svlock_ttas(); d = d + 1; x.store(0, REL); } T1(OK_ttas) { svlock_ttas(); d = d + 1; x.store(0, REL); } POST(OK_ttas) { CHECK(d == 2); }
INIT(BAD_lock) {} T0(BAD_lock) { svlock_lock(); d = d + 1; x.store(0, RLX); } T1(BAD_lock) { svlock_lock(); d = d + 1; x.store(0, REL); } POST(BAD_lock) { CHECK(d == 2); }
INIT(BAD_hang) {} T0(BAD_hang) { svlock_lock(); r0 = 1; } T1(BAD_hang) { svlock_lock(); r1 = 1; x.store(0, REL); } POST(BAD_hang) {}
INIT(BAD_hang2) {} T0(BAD_hang2) { svlock_ttas(); r0 = 1; } T1(BAD_hang2) { svlock_ttas(); r1 = 1; x.store(0, REL); } POST(BAD_hang2) {}
static int svlock_cas_inc() { int o = x.load(RLX); while (!x.compare_exchange_weak(o, o + 1, RLX)); return o; }
INIT(OK_casloop) {} T0(OK_casloop) { r0 = svlock_cas_inc(); } T1(OK_casloop) { r1 = svlock_cas_inc(); } POST(OK_casloop) { CHECK(r0 + r1 == 1); CHECK(x.load(RLX) == 2); }
// symbolic input chosen at initialisation
static int in0;
INIT(OK_sym) { in0 = sv_u32(); sv_assume(in0 > 5 && in0 < 1000); } T0(OK_sym) { x.store(in0, REL); } T1(OK_sym) { int v = x.load(ACQ); CHECK(v == 0 || v > 5); } POST(OK_sym) {}
INIT(BAD_sym) { in0 = sv_u32(); sv_assume(in0 > 5 && in0 < 1000); } T0(BAD_sym) { x.store(in0, REL); } T1(BAD_sym) { int v = x.load(ACQ); CHECK(v != 577); } POST(BAD_sym) {}
// counters and pointers in words of the same size; a pointer that is exchanged has a value of its own on every path
static atomic<uint64_t> big;
INIT(OK_big) { uint64_t v = sv_u64(); sv_assume(v < 1000); big.store(v, RLX); } T0(OK_big) { uint64_t v = big.fetch_add(1, RLX); CHECK(v < 1001); } T1(OK_big) { uint64_t v = big.fetch_add(1, RLX); CHECK(v < 1001); } POST(OK_big) { CHECK(big.load(RLX) < 1002); }
INIT(BAD_big) { big.store(7, RLX); } T0(BAD_big) { big.fetch_sub(1, RLX); } T1(BAD_big) { if (big.fetch_sub(1, RLX) == 7) big.fetch_add(2, RLX); } POST(BAD_big) { CHECK(big.load(RLX) != 7); }
INIT(OK_px) { px.store(new int(1), RLX); } T0(OK_px) { int* p = px.exchange(new int(2), AR); CHECK(*p != 2); p = px.exchange(p, AR); CHECK(*p >= 1); delete p; } T1(OK_px) { int* p = px.exchange(new int(3), AR); CHECK(*p != 3); delete p; } POST(OK_px) { int* p = px.load(RLX); CHECK(*p >= 1 && *p <= 3); delete p; }
INIT(BAD_px) { px.store(new int(1), RLX); } T0(BAD_px) { int* p = px.exchange(nullptr, AR); if (p) { r0 = *p; px.exchange(p, AR); } } T1(BAD_px) { int* p = px.exchange(nullptr, AR); if (p) delete p; } POST(BAD_px) { CHECK(!px.load(RLX) || r0 == 0); delete px.load(RLX); }
