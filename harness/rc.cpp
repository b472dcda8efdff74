// C21 (sequential part): both reference counters, from every counter value.
#include "sv.h"
#include <xmem/atomic_ref_count.hpp>
#include <xmem/local_ref_count.hpp>

template <class RC> static void put(RC& rc, uint64_t v) {
    // the representation is found out, not assumed: see Counter in sv.h; one that is not understood is only used with small values
    Counter c;
    sv_snap(&rc);
    rc.inc();
    bool ok = c.find(&rc, 1);
    if (ok) { c.set(uint32_t(v)); return; }
    sv_assume(v < 6);
    rc.dec(); rc.dec();
    if (v == 0) return;
    new (&rc) RC;
    for (uint32_t i = 1; i < v; ++i) rc.inc();
}
// a counter wider than its results does not wrap where they do
template <class RC> static bool wraps() { return sizeof(RC) == 4; }
template <class RC> static void start() {
    RC* rc = new RC;
    CHECK(rc->count() == 1);
    CHECK(rc->inc() == 2 && rc->count() == 2);
    CHECK(rc->dec() == 1 && rc->dec() == 0 && rc->count() == 0);
    CHECK(rc->inc_nz() == 0 && rc->count() == 0);
    delete rc;
}
#ifndef SPUR
#define SPUR 40
#endif
template <class RC> static void one() {
    RC* rc = new RC;
    uint32_t v = sv_u32();
    sv_spurious(SPUR);
    put(*rc, v);
    CHECK(rc->count() == v);
    sv_obs(v);
    switch (sv_choose(4)) {
    case 0: { sv_assume(wraps<RC>() || v != ~0u); uint32_t r = rc->inc(); CHECK(r == v + 1); CHECK(rc->count() == uint32_t(v + 1)); sv_reach("inc"); } break;
    case 1: { sv_assume(wraps<RC>() || v != 0); uint32_t r = rc->dec(); CHECK(r == v - 1); CHECK(rc->count() == uint32_t(v - 1)); sv_reach("dec"); } break;
    case 2: {
        uint32_t r = rc->inc_nz();
        if (v == 0) { CHECK(r == 0 && rc->count() == 0); sv_reach("zero"); }
        else { sv_assume(wraps<RC>() || v != ~0u); CHECK(r == uint32_t(v + 1)); CHECK(rc->count() == uint32_t(v + 1)); sv_reach("nonzero"); }
    } break;
    default: { const RC& c = *rc; CHECK(c.count() == v); CHECK(c.count() == v); } break;
    }
    sv_obs(rc->count());
    delete rc;
}
#ifndef K
#define K 4
#endif
// histories from any value against an integer
template <class RC> static void many() {
    RC* rc = new RC;
    uint32_t m = sv_u32();
    sv_spurious(1);
    put(*rc, m);
    for (int i = 0; i < K; ++i) {
        switch (sv_choose(3)) {
        case 0: sv_assume(wraps<RC>() || m != ~0u); ++m; CHECK(rc->inc() == m); break;
        case 1: sv_assume(wraps<RC>() || m != 0); --m; CHECK(rc->dec() == m); break;
        default: if (m) { sv_assume(wraps<RC>() || m != ~0u); ++m; CHECK(rc->inc_nz() == m); } else CHECK(rc->inc_nz() == 0); break;
        }
        CHECK(rc->count() == m);
    }
    delete rc;
}
ENTRY h_start_atomic() { start<xmem::atomic_ref_count>(); }
ENTRY h_start_local() { start<xmem::local_ref_count>(); }
ENTRY h_one_atomic() { one<xmem::atomic_ref_count>(); }
ENTRY h_one_local() { one<xmem::local_ref_count>(); }
ENTRY h_many_atomic() { many<xmem::atomic_ref_count>(); }
ENTRY h_many_local() { many<xmem::local_ref_count>(); }
