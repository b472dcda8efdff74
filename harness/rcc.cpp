// C21 (concurrent part): the atomic counter used by several threads, from every value.
#include "lin.h"
#include <xmem/atomic_ref_count.hpp>
using RC = xmem::atomic_ref_count;
static RC rc;
static int opc[3][2], len[3], n;
static bool small;
static uint32_t v0, r_0[2], r_1[2], r_2[2], fin;
static uint32_t* const res[3] = {r_0, r_1, r_2};

static void put(uint64_t v) {
    Counter c;
    sv_snap(&rc);
    rc.inc();
    bool ok = c.find(&rc, 1);
    if (ok) { c.set(uint32_t(v)); return; }
    sv_assume(v < 4);
    rc.dec(); rc.dec();
    if (v == 0) return;
    new (&rc) RC;
    for (uint32_t i = 1; i < v; ++i) rc.inc();
}
static void run(int t) {
    for (int i = 0; i < len[t]; ++i) {
        switch (opc[t][i]) {
        case 0: res[t][i] = rc.inc(); break;
        case 1: res[t][i] = rc.dec(); break;
        case 2: res[t][i] = rc.inc_nz(); break;
        default: res[t][i] = rc.count(); break;
        }
    }
}
struct St { uint32_t v; };
struct Apply {
    uint32_t operator()(St& s, int t, int i) const {
        uint32_t r = res[t][i];
        switch (opc[t][i]) {
        case 0: s.v += 1; return mask(r == s.v);
        case 1: s.v -= 1; return mask(r == s.v);
        case 2: { uint32_t nz = mask(s.v != 0); s.v += nz & 1; return mask(r == (s.v & nz)); }
        default: return mask(r == s.v);
        }
    }
    uint32_t end(const St& s) const { return mask(fin == s.v); }
};
static void pick(int nt, int l0, int l1, int l2, int kinds) {
    n = nt; len[0] = l0; len[1] = l1; len[2] = l2;
    for (int t = 0; t < nt; ++t) for (int i = 0; i < len[t]; ++i) opc[t][i] = int(sv_choose(kinds));
    v0 = sv_u32();
    if (small) sv_assume(v0 < 4 || v0 > 0xfffffffbu);
    // a counter wider than its results does not wrap where they do
    sv_assume(sizeof(RC) == 4 || (v0 >= 4 && v0 < 0xfffffff0u));
    put(v0);
}
static void post() {
    sv_reach("counter settled");
    fin = rc.count();
    int pos[3] = {0, 0, 0};
    uint32_t ok = some_order(St{v0}, len, pos, n, Apply());
    sv_check(ok != 0, "results agree with some order of the operations");
}
// two threads, one and two operations; three threads, one operation each
ENTRY c_rc2_init() { pick(2, 1, 1, 0, 4); sv_assume(opc[0][0] <= opc[1][0]); }
ENTRY c_rc2_t0() { run(0); }
ENTRY c_rc2_t1() { run(1); }
ENTRY c_rc2_post() { post(); }
#ifndef PAIR
ENTRY c_rc21_init() { pick(2, 2, 1, 0, 3); }
ENTRY c_rc21_t0() { run(0); }
ENTRY c_rc21_t1() { run(1); }
ENTRY c_rc21_post() { post(); }
ENTRY c_rc3_init() {
    pick(3, 1, 1, 1, 3); sv_assume(opc[0][0] <= opc[1][0] && opc[1][0] <= opc[2][0]);
#ifdef QUICK
    sv_assume(opc[0][0] + opc[1][0] + opc[2][0] < 4);
#endif
}
ENTRY c_rc3_t0() { run(0); }
ENTRY c_rc3_t1() { run(1); }
ENTRY c_rc3_t2() { run(2); }
ENTRY c_rc3_post() { post(); }
ENTRY c_Trc22_init() { small = true; pick(2, 2, 2, 0, 3); }
ENTRY c_Trc22_t0() { run(0); }
ENTRY c_Trc22_t1() { run(1); }
ENTRY c_Trc22_post() { post(); }
ENTRY c_Trc31_init() { small = true; pick(3, 2, 1, 1, 3); }
ENTRY c_Trc31_t0() { run(0); }
ENTRY c_Trc31_t1() { run(1); }
ENTRY c_Trc31_t2() { run(2); }
ENTRY c_Trc31_post() { post(); }
#endif
