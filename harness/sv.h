// Intrinsics of the symbolic machine; natively implemented by native/rt.cpp for replay.
#pragma once
// the locks of the platform are replaced by their meaning: words that are set and cleared atomically
#define pthread_mutex_lock sv_mx_lock
#define pthread_mutex_trylock sv_mx_trylock
#define pthread_mutex_unlock sv_mx_unlock
#define pthread_rwlock_rdlock sv_rw_rdlock
#define pthread_rwlock_tryrdlock sv_rw_tryrdlock
#define pthread_rwlock_wrlock sv_rw_wrlock
#define pthread_rwlock_trywrlock sv_rw_trywrlock
#define pthread_rwlock_unlock sv_rw_unlock
#include <cerrno>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <utility>
#include <type_traits>
#include <string>
#include <vector>
#include <memory>
#include <new>
#include <atomic>
#include <iosfwd>
#include <pthread.h>

extern "C" {
inline int sv_mx_lock(pthread_mutex_t* m) noexcept { while (__atomic_exchange_n((int*)m, 1, __ATOMIC_ACQUIRE)) {} return 0; }
inline int sv_mx_trylock(pthread_mutex_t* m) noexcept { return __atomic_exchange_n((int*)m, 1, __ATOMIC_ACQUIRE) ? EBUSY : 0; }
inline int sv_mx_unlock(pthread_mutex_t* m) noexcept { __atomic_store_n((int*)m, 0, __ATOMIC_RELEASE); return 0; }
inline int sv_rw_trywrlock(pthread_rwlock_t* l) noexcept {
    int z = 0;
    return __atomic_compare_exchange_n((int*)l, &z, -1, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED) ? 0 : EBUSY;
}
inline int sv_rw_wrlock(pthread_rwlock_t* l) noexcept { while (sv_rw_trywrlock(l)) {} return 0; }
inline int sv_rw_tryrdlock(pthread_rwlock_t* l) noexcept {
    int n = __atomic_load_n((int*)l, __ATOMIC_RELAXED);
    return n >= 0 && __atomic_compare_exchange_n((int*)l, &n, n + 1, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED) ? 0 : EBUSY;
}
inline int sv_rw_rdlock(pthread_rwlock_t* l) noexcept { while (sv_rw_tryrdlock(l)) {} return 0; }
inline int sv_rw_unlock(pthread_rwlock_t* l) noexcept {
    if (__atomic_load_n((int*)l, __ATOMIC_RELAXED) == -1) __atomic_store_n((int*)l, 0, __ATOMIC_RELEASE);
    else __atomic_fetch_sub((int*)l, 1, __ATOMIC_RELEASE);
    return 0;
}
}

extern "C" {
uint8_t sv_u8();
uint32_t sv_u32();
uint64_t sv_u64();
bool sv_bool();
uint32_t sv_choose(uint32_t n);          // input in [0,n), one path per value
uint32_t sv_pick(uint32_t n);            // input in [0,n), kept symbolic
void sv_assume(bool);
void sv_check(bool, const char* what);
void sv_fail(const char* what);
void sv_reach(const char* label);        // vacuity witness
void sv_obs(uint64_t);                   // value compared with the native run
void sv_poison(const void* p, size_t n);   // the object at p is destroyed: any later access is a violation
void sv_unpoison(const void* p, size_t n); // an object is constructed at p
void sv_fault_arm(uint32_t k);           // the k-th allocation from now on throws bad_alloc
void sv_fault_disarm();
uint32_t sv_alloc_count();
uint32_t sv_live();                      // live heap blocks
void sv_allow_leak();
int sv_tid();                            // the thread that runs (concurrency engine; -1 before and after)
void sv_spurious(uint32_t n);            // allow n spurious failures of weak compare-exchanges
void sv_blocks();                        // the call that follows must never return (one waits for ever here; memory may stay)
void sv_bigalloc(bool on);               // allocations of any (symbolic) size succeed
size_t sv_objsize(const void* p);
size_t sv_objalign(const void* p);
size_t sv_objoff(const void* p);         // offset of p in its live block, ~0 if there is none
bool sv_is_live(const void* p);
bool sv_uninit(const void* p, size_t n);  // nothing was stored there since the memory was obtained
void sv_snap(const void* p);
uint64_t sv_diff_inc(const void* p, uint64_t oldval);
void* sv_ostream();
uint32_t sv_streamed_count();
uint64_t sv_streamed(uint32_t i);
}
#define CHECK(c) sv_check((c), #c)
#define ENTRY extern "C" __attribute__((noinline)) void

template <class T> inline uint64_t u(T* p) { return reinterpret_cast<uint64_t>(p); }

// first base of a payload: its destructor runs after those of all members and other bases
template <class D>
struct Life {
    Life() { sv_unpoison(static_cast<D*>(this), sizeof(D)); }
    Life(const Life&) { sv_unpoison(static_cast<D*>(this), sizeof(D)); }
    Life& operator=(const Life&) = default;
    ~Life() { sv_poison(static_cast<D*>(this), sizeof(D)); }
};

// symbolic control over a reference counter that lives somewhere in a heap or stack object
struct Counter {
    char* at = nullptr;
    unsigned size = 0;
    int delta = 0;
    // call sv_snap(block) first, then increment the counter once, then this
    bool find(const void* block, uint64_t before) {
        uint64_t d = sv_diff_inc(block, before);
        if (d == ~uint64_t(0)) return false;
        delta = int8_t(d & 255);
        size = unsigned(d >> 8) & 255;
        at = (char*)block - sv_objoff(block) + (d >> 16);
        return true;
    }
    void set(uint32_t v) {
        uint64_t x = uint64_t(v) + uint64_t(int64_t(delta));
        switch (size) {
        case 1: { uint8_t y = uint8_t(x); std::memcpy(at, &y, 1); } break;
        case 2: { uint16_t y = uint16_t(x); std::memcpy(at, &y, 2); } break;
        case 4: { uint32_t y = uint32_t(x); std::memcpy(at, &y, 4); } break;
        default: std::memcpy(at, &x, 8); break;
        }
    }
    uint32_t get() const {
        uint64_t x = 0;
        std::memcpy(&x, at, size <= 8 ? size : 8);
        return uint32_t(x - uint64_t(int64_t(delta)));
    }
};
