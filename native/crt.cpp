// Native replay of an interleaving: the harness' LLVM IR (the very file the engine executes) is instrumented by LLVM's tsan pass
// and linked with this runtime instead of the sanitizer's.  Real threads run the real code one at a time, switching at atomic
// operations in the given order; happens-before is tracked with vector clocks by the declared memory orders, so that data races,
// accesses to released memory, failing checks, leaks and endless waiting show as in the solver's model.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <malloc.h>
#include <mutex>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
const int MT = 6;
[[noreturn]] void fail(const char* kind, const char* what) {
    char b[400];
    int n = snprintf(b, sizeof b, "FAIL %s: %s\n", kind, what);
    if (write(1, b, n)) {}
    _exit(3);
}
// ---- bump memory without reuse
char* g_heap; size_t g_top; const size_t HEAP = size_t(64) << 20;
struct Blk { char* p; size_t size, align; int kind; bool aligned, live; } g_blk[4096];
int g_nblk;
bool g_track, g_leak_ok;
uint64_t g_in[256]; int g_nin, g_pos;

// ---- threads
int g_n; thread_local int me = -1;      // -1: initialisation and final checks
std::mutex g_m; std::condition_variable g_cv; int g_baton = -1; bool g_done[MT];
struct Step { int t, spurious; } g_step[4096]; int g_ns, g_cur;
char g_flags[MT][4096]; int g_fpos[MT]; long g_free;
char* g_lo[MT]; char* g_hi[MT];
bool g_ended;

struct VC { uint32_t c[MT] = {}; void join(const VC& o) { for (int i = 0; i < MT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
VC vc[MT], pend[MT], relf[MT];

// ---- shadow
struct Acc { int t; uint32_t clk; uint8_t mask; bool wr, at; Acc* next; };
struct Gran { uintptr_t a; Acc* acc; VC rel; bool freed; uint8_t freemask; };
const int NG = 1 << 16; Gran g_g[NG];
Gran& gran(uintptr_t a) {
    a >>= 3;
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 48;
    while (g_g[h & (NG - 1)].a && g_g[h & (NG - 1)].a != a) ++h;
    g_g[h & (NG - 1)].a = a;
    return g_g[h & (NG - 1)];
}
bool own(const void* p) { return me >= 0 && (char*)p >= g_lo[me] && (char*)p < g_hi[me]; }
Acc g_pool[1 << 18]; int g_np;
void access(const void* p, size_t n, bool wr, bool at) {
    if (!g_track || own(p)) return;
    uintptr_t a = (uintptr_t)p;
    if ((char*)p >= g_heap && (char*)p < g_heap + HEAP) {
        for (int i = 0; i < g_nblk; ++i) {
            Blk& b = g_blk[i];
            if ((char*)p >= b.p && (char*)p < b.p + b.size) {
                if (!b.live) fail("uaf", "access to released memory");
                if ((char*)p + n > b.p + b.size) fail("bounds", "access beyond a block");
            }
        }
    }
    if (me < 0) return;
    while (n) {
        size_t k = 8 - (a & 7); if (k > n) k = n;
        uint8_t m = uint8_t(((1u << k) - 1) << (a & 7));
        Gran& g = gran(a);
        bool found = false;
        for (Acc* x = g.acc; x; x = x->next) {
            if (!(x->mask & m)) continue;
            if (x->t == me) { if (x->mask == m && x->wr == wr && x->at == at) { x->clk = vc[me].c[me]; found = true; } continue; }
            if (!(x->wr || wr) || (x->at && at)) continue;
            if (x->clk > vc[me].c[x->t]) fail("race", wr ? "data race (write)" : "data race (read)");
        }
        if (!found) {
            if (g_np >= int(sizeof g_pool / sizeof g_pool[0])) fail("replay", "too many accesses");
            Acc& x = g_pool[g_np++];
            x = Acc{me, vc[me].c[me], m, wr, at, g.acc};
            g.acc = &x;
        }
        a += k; n -= k;
    }
}
void* get(size_t n, size_t al, int kind, bool aligned) {
    if (!g_track) return aligned ? memalign(al, n) : malloc(n ? n : 1);
    if (g_nblk >= 4096) fail("replay", "too many blocks");
    size_t a = al < 64 ? 64 : al;
    g_top = (g_top + a - 1) / a * a;
    Blk& b = g_blk[g_nblk++];
    b = Blk{g_heap + g_top, n, al, kind, aligned, true};
    g_top += n + 64;
    if (g_top > HEAP) fail("replay", "out of memory");
    memset(b.p, 0xA5, n);
    return b.p;
}
void put(void* p, int kind, bool aligned, size_t al, bool sized, size_t sz) {
    if (!p) return;
    if ((char*)p < g_heap || (char*)p >= g_heap + HEAP) { free(p); return; }
    for (int i = 0; i < g_nblk; ++i) {
        Blk& b = g_blk[i];
        if (b.p != p) continue;
        if (!b.live) fail("doublefree", "memory released twice");
        if (b.kind != kind || b.aligned != aligned || (aligned && b.align != al) || (sized && sz != b.size)) fail("mismatch", "release does not match the allocation");
        if (me >= 0)
            for (size_t k = 0; k < b.size; k += 8)
                for (Acc* x = gran((uintptr_t)b.p + k).acc; x; x = x->next)
                    if (x->t != me && x->clk > vc[me].c[x->t]) fail("uaf", "an access is not ordered before the release of its memory");
        b.live = false;
        return;
    }
    fail("badfree", "release of a pointer that was never allocated");
}

// ---- scheduling: called at every atomic operation of a thread on shared memory; returns whether a spurious failure is due
void pass(std::unique_lock<std::mutex>& l, int to) {
    g_baton = to;
    g_cv.notify_all();
    while (g_baton != me) g_cv.wait(l);
}
int nextfree() { for (int k = 1; k <= g_n; ++k) { int t = (me + k) % g_n; if (!g_done[t]) return t; } return -1; }
int whose() {
    while (g_cur < g_ns) {
        int t = g_step[g_cur].t;
        if (g_done[t]) fail("replay", "diverged: the thread has ended already");
        return t;
    }
    g_ended = true;
    return nextfree();
}
bool turn() {
    std::unique_lock<std::mutex> l(g_m);
    char f = g_flags[me][g_fpos[me]];
    if (f) ++g_fpos[me];
    if (f == 'N') return false;
    if (f == 'S') return true;
    for (;;) {
        if (g_cur >= g_ns || g_ended) {
            g_ended = true;
            if (++g_free > 20000) fail("hang", "the threads make no progress");
            int t = nextfree();
            if (t >= 0 && t != me) pass(l, t);
            return false;
        }
        if (!f) fail("replay", "diverged: more operations than in the model");
        int t = whose();
        if (t == me) { bool s = g_step[g_cur].spurious; ++g_cur; return s; }
        pass(l, t);
    }
}
void* body(void* arg) {
    int t = int(intptr_t(arg));
    pthread_attr_t at; void* lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    extern char g_name[];
    char nm[200];
    snprintf(nm, sizeof nm, "c_%s_t%d", g_name, t);
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, nm);
    if (!fn) fail("replay", "no such thread function");
    {
        std::unique_lock<std::mutex> l(g_m);
        g_lo[t] = (char*)lo; g_hi[t] = (char*)lo + sz;
        me = t;
        vc[t].c[t] = 1;
        while (g_baton != me) g_cv.wait(l);
    }
    try { fn(); } catch (...) { fail("terminate", "exception escapes from a thread"); }
    {
        std::unique_lock<std::mutex> l(g_m);
        g_done[t] = true;
        int to = -1;
        for (int i = 0; i < g_n; ++i) if (!g_done[i]) to = i;
        if (to >= 0) to = whose();
        g_baton = to;
        g_cv.notify_all();
    }
    return nullptr;
}
char g_name[128];

// ---- atomics
enum { RLX, CON, ACQ, REL, AR, SC };
bool isacq(int o) { return o == CON || o == ACQ || o == AR || o == SC; }
bool isrel(int o) { return o == REL || o == AR || o == SC; }
void tick() { ++vc[me].c[me]; }
void on_load(const void* p, size_t n, int o, bool store_follows) {
    access(p, n, false, true);
    if (me < 0) return;
    Gran& g = gran((uintptr_t)p);
    if (isacq(o)) vc[me].join(g.rel);
    pend[me].join(g.rel);
    if (!store_follows) tick();
}
void on_store(const void* p, size_t n, int o, bool rmw) {
    access(p, n, true, true);
    if (me < 0) return;
    Gran& g = gran((uintptr_t)p);
    const VC& v = isrel(o) ? vc[me] : relf[me];
    if (rmw) g.rel.join(v); else g.rel = v;
    tick();
}
template <class T> T a_load(const volatile T* p, int o) {
    if (me >= 0 && !own((void*)p)) turn();
    if (!own((void*)p)) on_load((void*)p, sizeof(T), o, false);
    return *p;
}
template <class T> void a_store(volatile T* p, T v, int o) {
    if (me >= 0 && !own((void*)p)) turn();
    if (!own((void*)p)) on_store((void*)p, sizeof(T), o, false);
    *p = v;
}
template <class T, class F> T a_rmw(volatile T* p, int o, F f) {
    if (me >= 0 && !own((void*)p)) turn();
    if (!own((void*)p)) { on_load((void*)p, sizeof(T), o, true); on_store((void*)p, sizeof(T), o, true); }
    T old = *p;
    *p = T(f(old));
    return old;
}
template <class T> bool a_cas(volatile T* p, T c, T v, int o, int fo, bool weak, T& old) {
    bool sp = false;
    if (me >= 0 && !own((void*)p)) sp = turn();
    old = *p;
    if (old == c && !(sp && weak)) {
        if (!own((void*)p)) { on_load((void*)p, sizeof(T), o, true); on_store((void*)p, sizeof(T), o, true); }
        *p = v;
        return true;
    }
    if (!own((void*)p)) on_load((void*)p, sizeof(T), fo, false);
    return false;
}
}

void* operator new(size_t n) { return get(n, 16, 0, false); }
void* operator new[](size_t n) { return get(n, 16, 1, false); }
void* operator new(size_t n, std::align_val_t a) { return get(n, size_t(a), 0, true); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a), 1, true); }
void operator delete(void* p) noexcept { put(p, 0, false, 0, false, 0); }
void operator delete[](void* p) noexcept { put(p, 1, false, 0, false, 0); }
void operator delete(void* p, size_t s) noexcept { put(p, 0, false, 0, true, s); }
void operator delete[](void* p, size_t s) noexcept { put(p, 1, false, 0, true, s); }
void operator delete(void* p, std::align_val_t a) noexcept { put(p, 0, true, size_t(a), false, 0); }
void operator delete[](void* p, std::align_val_t a) noexcept { put(p, 1, true, size_t(a), false, 0); }
void operator delete(void* p, size_t s, std::align_val_t a) noexcept { put(p, 0, true, size_t(a), true, s); }
void operator delete[](void* p, size_t s, std::align_val_t a) noexcept { put(p, 1, true, size_t(a), true, s); }

static uint64_t next() { if (g_pos >= g_nin) fail("replay", "input vector exhausted"); return g_in[g_pos++]; }
static Blk* find(const void* p) { for (int i = 0; i < g_nblk; ++i) if ((char*)p >= g_blk[i].p && (char*)p < g_blk[i].p + g_blk[i].size) return &g_blk[i]; return nullptr; }
extern "C" {
uint8_t sv_u8() { return uint8_t(next()); }
uint32_t sv_u32() { return uint32_t(next()); }
uint64_t sv_u64() { return next(); }
bool sv_bool() { return next() & 1; }
uint32_t sv_choose(uint32_t) { return uint32_t(next()); }
uint32_t sv_pick(uint32_t) { return uint32_t(next()); }
void sv_assume(bool c) { if (!c) fail("replay", "assumption does not hold"); }
void sv_check(bool c, const char* w) { if (!c) fail("check", w); }
void sv_fail(const char* w) { fail("check", w); }
void sv_reach(const char*) {}
void sv_obs(uint64_t) {}
void sv_poison(const void*, size_t) {}
void sv_unpoison(const void*, size_t) {}
void sv_fault_arm(uint32_t) {}
void sv_fault_disarm() {}
uint32_t sv_alloc_count() { return 0; }
uint32_t sv_live() { uint32_t n = 0; for (int i = 0; i < g_nblk; ++i) n += g_blk[i].live; return n; }
void sv_allow_leak() { g_leak_ok = true; }
int sv_tid() { return me; }
void sv_spurious(uint32_t) {}
void sv_blocks() {}
void sv_bigalloc(bool) {}
size_t sv_objsize(const void* p) { auto b = find(p); return b ? b->size : 0; }
size_t sv_objalign(const void* p) { auto b = find(p); return b ? b->align : 0; }
size_t sv_objoff(const void* p) { auto b = find(p); return b ? (b->live ? size_t((char*)p - b->p) : ~size_t(0)) : 0; }
bool sv_is_live(const void* p) { auto b = find(p); return b ? b->live : p != nullptr; }
bool sv_uninit(const void*, size_t) { return false; }
void sv_snap(const void*) {}
uint64_t sv_diff_inc(const void*, uint64_t) { return next(); }
void* sv_ostream() { return nullptr; }
uint32_t sv_streamed_count() { return 0; }
uint64_t sv_streamed(uint32_t) { return 0; }

// ---- interface of LLVM's tsan pass
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, false); } \
    void __tsan_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); } \
    void __tsan_read_write##n(void* p) { access(p, n, false, false); access(p, n, true, false); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, false); access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { access(p, 8, false, false); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { access(d, n, true, false); return memset(d, v, n); }
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int o) { return a_load(p, o); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int o) { a_store(p, v, o); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int o) { return a_rmw(p, o, [&](T) { return v; }); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int o) { return a_rmw(p, o, [&](T x) { return x + v; }); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int o) { return a_rmw(p, o, [&](T x) { return x - v; }); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int o) { return a_rmw(p, o, [&](T x) { return x & v; }); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int o) { return a_rmw(p, o, [&](T x) { return x | v; }); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int o) { return a_rmw(p, o, [&](T x) { return x ^ v; }); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int o) { return a_rmw(p, o, [&](T x) { return ~(x & v); }); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int o, int f) { T old; a_cas(p, c, v, o, f, false, old); return old; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// weak compare-exchanges are rewritten to this in the IR, so that the model's spurious failures can be followed
int sv_cxw(void* p, uint64_t c, uint64_t v, int size, int o, int f, uint64_t* old) {
    bool r;
#define W(N, T) case N: { T x; r = a_cas((volatile T*)p, T(c), T(v), o, f, true, x); *old = x; } break
    switch (size) { W(8, uint8_t); W(16, uint16_t); W(32, uint32_t); default: { uint64_t x; r = a_cas((volatile uint64_t*)p, c, v, o, f, true, x); *old = x; } }
    return r;
}
void __tsan_atomic_thread_fence(int o) {
    if (me < 0) return;
    turn();
    if (isacq(o)) vc[me].join(pend[me]);
    if (isrel(o)) relf[me] = vc[me];
    tick();
}
void __tsan_atomic_signal_fence(int) {}
int sched_yield() { return 0; }
}

static void on_sig(int s) {
    if (s == SIGALRM) fail("hang", "no end within the time limit");
    fail("crash", s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort/terminate" : "signal");
}
static void call(const char* suf) {
    char nm[200];
    snprintf(nm, sizeof nm, "c_%s_%s", g_name, suf);
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, nm);
    if (!fn) fail("replay", "no such function");
    g_track = true;
    try { fn(); } catch (...) { fail("terminate", "exception escapes"); }
    g_track = false;
}
static void run() {
    signal(SIGALRM, on_sig); signal(SIGABRT, on_sig); signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig);
    alarm(8);
    g_heap = (char*)memalign(4096, HEAP);
    call("init");
    g_track = true;
    pthread_t th[MT];
    g_track = false;
    for (int t = 0; t < g_n; ++t) if (pthread_create(&th[t], nullptr, body, (void*)intptr_t(t))) fail("replay", "no thread");
    g_track = true;
    { std::unique_lock<std::mutex> l(g_m); g_baton = g_ns ? g_step[0].t : 0; g_cv.notify_all(); }
    for (int t = 0; t < g_n; ++t) pthread_join(th[t], nullptr);
    if (g_cur < g_ns && !g_ended) fail("replay", "diverged: the threads ended before the schedule");
    call("post");
    if (!g_leak_ok) for (int i = 0; i < g_nblk; ++i) if (g_blk[i].live) fail("leak", "memory never released");
    if (write(1, "OK\n", 3)) {}
    _exit(0);
}
// stdin lines: name n | inputs | flags of every thread ("-" if none) | steps t or t! (spurious failure)
int main() {
    static char buf[1 << 16];
    int k = 0;
    while (fgets(buf, sizeof buf, stdin)) {
        char* part[4] = {};
        int np = 0;
        for (char* q = strtok(buf, "|\n"); q && np < 4; q = strtok(nullptr, "|\n")) part[np++] = q;
        if (np < 3) continue;
        printf("== %d\n", k++);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            dup2(1, 2);
            char* sv;
            strncpy(g_name, strtok_r(part[0], " ", &sv), 100);
            g_n = atoi(strtok_r(nullptr, " ", &sv));
            for (char* w = strtok_r(part[1], " ", &sv); w; w = strtok_r(nullptr, " ", &sv)) if (*w != '-') g_in[g_nin++] = strtoull(w, nullptr, 10);
            int t = 0;
            for (char* w = strtok_r(part[2], " ", &sv); w; w = strtok_r(nullptr, " ", &sv), ++t) if (*w != '-') strncpy(g_flags[t], w, 4000);
            if (part[3]) for (char* w = strtok_r(part[3], " ", &sv); w; w = strtok_r(nullptr, " ", &sv)) { g_step[g_ns].t = atoi(w); g_step[g_ns++].spurious = strchr(w, '!') != nullptr; }
            run();
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) continue;
        printf("FAIL crash: status %d\n", st);
        fflush(stdout);
    }
}
