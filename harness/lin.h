// Interleavings of up to three threads' operation sequences, for linearizability checks without branches on symbolic values.
#pragma once
#include "sv.h"
static inline uint32_t mask(bool b) { return uint32_t(0) - uint32_t(b); }
static inline uint32_t sel(uint32_t m, uint32_t a, uint32_t b) { return (a & m) | (b & ~m); }
// apply(state, t, i) performs operation i of thread t on the state and returns whether the recorded result agrees
template <class S, class F> static uint32_t some_order(const S& s, const int* len, int* pos, int n, F&& apply) {
    bool end = true;
    uint32_t any = 0;
    for (int t = 0; t < n; ++t) {
        if (pos[t] >= len[t]) continue;
        end = false;
        S c = s;
        uint32_t ok = apply(c, t, pos[t]);
        ++pos[t];
        any |= ok & some_order(c, len, pos, n, apply);
        --pos[t];
    }
    return end ? apply.end(s) : any;
}
