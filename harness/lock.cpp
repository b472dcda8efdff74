// C17: the spin lock, by two and three threads.
#include "sv.h"
#include <xmem/bits/spinlock.hpp>
using Lock = xmem::impl::spinlock;
using Guard = xmem::impl::spinlock::lock_guard;
static Lock lk, lk2;
static int inside, data, other, n_in[3], sec[3], form[3];
static std::atomic<int> busy;
static void critical(int t) {
    data = data * 2 + 1;
    CHECK(inside == 0);
    inside = 1;
    CHECK((data & 1) == 1);
    inside = 0;
    n_in[t] = n_in[t] + 1;
}
static void section(int t, int f) {
    switch (f) {
    case 0: lk.lock(); critical(t); lk.unlock(); break;
    case 1: { Guard g(lk); critical(t); } break;
    case 2: { Guard g(lk2); { Guard h(lk); critical(t); } other = other + 1; } break;
    case 3: { lk.lock(); lk.unlock(); Guard g(lk); critical(t); } break;
    }
}
static void run(int t) { for (int i = 0; i < sec[t]; ++i) section(t, form[t]); }
static void ready(int n, int forms) { for (int t = 0; t < n; ++t) { sec[t] = 1; form[t] = int(sv_choose(forms)); } for (int t = 1; t < n; ++t) sv_assume(form[t - 1] <= form[t]); }
static void done(int n) {
    int total = 0;
    for (int t = 0; t < n; ++t) { CHECK(n_in[t] == sec[t]); total += sec[t]; }
    CHECK(data == (1 << total) - 1);
    lk.lock(); lk.unlock();       // free again
    sv_reach("free again");
}
ENTRY c_two_init() { ready(2, 4); }
ENTRY c_two_t0() { run(0); }
ENTRY c_two_t1() { run(1); }
ENTRY c_two_post() { done(2); CHECK(other == (form[0] == 2) + (form[1] == 2)); }
// one thread comes back
ENTRY c_again_init() { ready(2, 2); sec[0] = 2; }
ENTRY c_again_t0() { run(0); }
ENTRY c_again_t1() { run(1); }
ENTRY c_again_post() { done(2); }
ENTRY c_Tagain2_init() { ready(2, 2); sec[0] = 2; sec[1] = 2; }
ENTRY c_Tagain2_t0() { run(0); }
ENTRY c_Tagain2_t1() { run(1); }
ENTRY c_Tagain2_post() { done(2); }
ENTRY c_three_init() { ready(3, 1); }
ENTRY c_three_t0() { run(0); }
ENTRY c_three_t1() { run(1); }
ENTRY c_three_t2() { run(2); }
ENTRY c_three_post() { done(3); }
// what the initialising thread wrote under the lock; the lock starts out held
static int prep;
ENTRY c_handoff_init() { lk.lock(); prep = 5; }
ENTRY c_handoff_t0() { other = prep + 2; lk.unlock(); }
ENTRY c_handoff_t1() { Guard g(lk); CHECK(other == 7); prep = 9; sv_reach("handed over"); }
ENTRY c_handoff_post() { CHECK(prep == 9); }
// locks are independent of each other
ENTRY c_indep_init() { lk2.lock(); }
ENTRY c_indep_t0() { Guard g(lk); other = 1; }
ENTRY c_indep_t1() { lk2.unlock(); lk2.lock(); lk2.unlock(); }
ENTRY c_indep_post() { CHECK(other == 1); Guard g(lk2); }
// sequentially: every state a quiescent lock can be left in lets it be acquired
ENTRY h_reuse() {
    Lock* l = new Lock;
    for (int i = 0; i < 6; ++i) {
        if (sv_bool()) { l->lock(); l->unlock(); }
        else { Guard g(*l); }
    }
    { Guard g(*l); }
    l->lock(); l->unlock();
    delete l;
    Lock s; Lock z{};
    { Guard g(s); Guard h(z); Guard i(lk); }
    s.lock(); z.lock(); lk.lock(); s.unlock(); z.unlock(); lk.unlock();
    s.lock(); z.lock(); lk.lock();
}

// a held lock is not acquired, however often one tries
ENTRY h_held() {
    Lock* l = new Lock;
    switch (sv_choose(3)) {
    case 0: l->lock(); break;
    case 1: { l->lock(); l->unlock(); l->lock(); } break;
    case 2: { { Guard g(*l); } l->lock(); } break;
    }
    sv_blocks();
    if (sv_bool()) l->lock();
    else new Guard(*l);
    sv_fail("a held lock was acquired again");
}
