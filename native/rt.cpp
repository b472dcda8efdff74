// Native implementation of the harness intrinsics: replays one input vector against the real, natively compiled code.
#include "../harness/sv.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <malloc.h>
#include <signal.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#   define ASAN 1
#elif defined(__has_feature)
#   if __has_feature(address_sanitizer)
#       define ASAN 1
#   endif
#endif
#ifdef ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, b)
#define ASAN_UNPOISON_MEMORY_REGION(a, b)
#endif

namespace {
std::vector<std::string>* g_in;
size_t g_pos;
int g_out = 1;
bool g_leak_ok, g_big, g_armed;
uint32_t g_fault, g_count;
struct Blk { char* p; void* base; size_t size; size_t align; int kind; bool aligned, live; };
Blk g_blk[1 << 15];
int g_nblk;
bool g_track;
char g_dummy[256];
struct Snap { char* p; size_t n; char data[1024]; } g_snap[8];
int g_nsnap;

[[noreturn]] void fail(const char* kind, const char* what) {
    char buf[600];
    int n = snprintf(buf, sizeof buf, "FAIL %s: %s\n", kind, what);
    if (write(g_out, buf, n)) {}
    _exit(3);
}
uint64_t next() {
    if (g_pos >= g_in->size()) fail("replay", "input vector exhausted");
    // "h3+8": 8 bytes into the fourth heap block
    const char* s = (*g_in)[g_pos++].c_str();
    if (*s != 'h') return strtoull(*s == 'o' ? s + 1 : s, nullptr, 10);
    char* e;
    long k = strtol(s + 1, &e, 10);
    if (k >= g_nblk) fail("replay", "input refers to a block that does not exist");
    return uint64_t(uintptr_t(g_blk[k].p)) + uint64_t(strtoll(e, nullptr, 10));
}
Blk* find(const void* p) {
    for (int i = g_nblk - 1; i >= 0; --i) {
        auto& b = g_blk[i];
        if (b.live && (const char*)p >= b.p && (const char*)p <= b.p + b.size && b.p != g_dummy) return &b;
    }
    for (int i = g_nblk - 1; i >= 0; --i) {
        auto& b = g_blk[i];
        if ((const char*)p == b.p) return &b;
    }
    return nullptr;
}
void* get(size_t n, size_t al, int kind, bool aligned, bool nothrow) {
    if (!g_track) {
        void* r = aligned ? memalign(al, n) : malloc(n);
        return r;
    }
    if (g_armed && g_count++ == g_fault) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (al == 0 || (al & (al - 1))) fail("ub", "bad alignment");
    if (g_nblk >= int(sizeof g_blk / sizeof g_blk[0])) fail("replay", "too many blocks");
    Blk& b = g_blk[g_nblk++];
    b.size = n; b.align = al; b.kind = kind; b.aligned = aligned; b.live = true;
    if (n > (1u << 22)) {
        if (g_big) {
            b.base = nullptr; b.p = g_dummy;
            return b.p;
        }
        --g_nblk;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (!aligned) { b.base = malloc(n ? n : 1); b.p = (char*)b.base; }
    else {
        // aligned exactly as requested and not more
        b.base = memalign(al * 2, n + al);
        b.p = (char*)b.base + al;
    }
    memset(b.p, 0xA5, n);
    return b.p;
}
void put(void* p, int kind, bool aligned, size_t al, bool sized, size_t sz) {
    if (!p) return;
    if (!g_track) { free(p); return; }
    for (int i = g_nblk - 1; i >= 0; --i) {
        auto& b = g_blk[i];
        if (b.p == p && (b.live || b.p != g_dummy)) {
            if (!b.live) fail("doublefree", "memory released twice");
            if (b.kind != kind) fail("mismatch", "new/new[] released by the wrong delete");
            if (b.aligned != aligned || (aligned && b.align != al)) fail("mismatch", "alignment of delete differs");
            if (sized && sz != b.size) fail("mismatch", "size of delete differs");
            b.live = false;
            if (b.base) {
                ASAN_UNPOISON_MEMORY_REGION(b.p, b.size);
                memset(b.p, 0xDD, b.size);
                free(b.base);
            }
            return;
        }
    }
    fail("badfree", "release of a pointer that was never allocated");
}
}

void* operator new(size_t n) { return get(n, 16, 0, false, false); }
void* operator new[](size_t n) { return get(n, 16, 1, false, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 16, 0, false, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 16, 1, false, true); }
void* operator new(size_t n, std::align_val_t a) { return get(n, size_t(a), 0, true, false); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a), 1, true, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, size_t(a), 0, true, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, size_t(a), 1, true, true); }
void operator delete(void* p) noexcept { put(p, 0, false, 0, false, 0); }
void operator delete[](void* p) noexcept { put(p, 1, false, 0, false, 0); }
void operator delete(void* p, size_t s) noexcept { put(p, 0, false, 0, true, s); }
void operator delete[](void* p, size_t s) noexcept { put(p, 1, false, 0, true, s); }
void operator delete(void* p, std::align_val_t a) noexcept { put(p, 0, true, size_t(a), false, 0); }
void operator delete[](void* p, std::align_val_t a) noexcept { put(p, 1, true, size_t(a), false, 0); }
void operator delete(void* p, size_t s, std::align_val_t a) noexcept { put(p, 0, true, size_t(a), true, s); }
void operator delete[](void* p, size_t s, std::align_val_t a) noexcept { put(p, 1, true, size_t(a), true, s); }

extern "C" {
uint8_t sv_u8() { return uint8_t(next()); }
uint32_t sv_u32() { return uint32_t(next()); }
uint64_t sv_u64() { return next(); }
bool sv_bool() { return next() & 1; }
uint32_t sv_choose(uint32_t) { return uint32_t(next()); }
uint32_t sv_pick(uint32_t) { return uint32_t(next()); }
void sv_assume(bool c) { if (!c) { if (write(g_out, "ASSUME\n", 7)) {} _exit(4); } }
void sv_check(bool c, const char* w) { if (!c) fail("check", w); }
void sv_fail(const char* w) { fail("check", w); }
void sv_reach(const char*) {}
void sv_obs(uint64_t v) {
    char buf[64];
    int n = snprintf(buf, sizeof buf, "OBS %llu\n", (unsigned long long)v);
    if (write(g_out, buf, n)) {}
}
void sv_poison(const void* p, size_t n) {
    (void)p; (void)n;
    memset(const_cast<void*>(p), 0xEE, n);
    ASAN_POISON_MEMORY_REGION(p, n);
}
void sv_unpoison(const void* p, size_t n) { (void)p; (void)n; ASAN_UNPOISON_MEMORY_REGION(p, n); }
void sv_fault_arm(uint32_t k) { g_armed = true; g_fault = k; g_count = 0; }
void sv_fault_disarm() { g_armed = false; }
uint32_t sv_alloc_count() { return g_count; }
uint32_t sv_live() { uint32_t n = 0; for (int i = 0; i < g_nblk; ++i) n += g_blk[i].live; return n; }
void sv_allow_leak() { g_leak_ok = true; }
int sv_tid() { return -1; }
static uint32_t g_spur;
void sv_spurious(uint32_t n) { g_spur = n; }
// weak compare-exchanges of units marked `spur` are rewritten to this in the IR
int sv_cxw(void* p, uint64_t c, uint64_t v, int size, int, int, uint64_t* old) {
    bool t = g_track; g_track = false;
    bool r = false;
    auto go = [&](auto z) {
        using T = decltype(z);
        auto a = reinterpret_cast<T*>(p);
        T x = __atomic_load_n(a, __ATOMIC_SEQ_CST);
        *old = x;
        if (x != T(c)) return;
        if (g_spur && next()) { --g_spur; return; }
        __atomic_store_n(a, T(v), __ATOMIC_SEQ_CST);
        r = true;
    };
    switch (size) { case 8: go(uint8_t()); break; case 16: go(uint16_t()); break; case 32: go(uint32_t()); break; default: go(uint64_t()); }
    g_track = t;
    return r;
}
void sv_blocks() {}
void sv_bigalloc(bool on) { g_big = on; }
bool sv_uninit(const void* p, size_t n) {
    for (size_t i = 0; i < n; ++i) if (static_cast<const volatile unsigned char*>(p)[i] != 0xA5) return false;
    return true;
}
size_t sv_objsize(const void* p) {
    if (p == g_dummy) { for (int i = g_nblk - 1; i >= 0; --i) if (g_blk[i].live && g_blk[i].p == g_dummy) return g_blk[i].size; }
    auto b = find(p); return b ? b->size : 0; }
size_t sv_objalign(const void* p) {
    if (p == g_dummy) { for (int i = g_nblk - 1; i >= 0; --i) if (g_blk[i].live && g_blk[i].p == g_dummy) return g_blk[i].align; }
    auto b = find(p); return b ? b->align : 0; }
size_t sv_objoff(const void* p) { auto b = find(p); return b && b->live ? size_t((char*)p - b->p) : (find(p) ? ~size_t(0) : 0); }
bool sv_is_live(const void* p) { auto b = find(p); return b ? b->live : p != nullptr; }
void sv_snap(const void*) {}
uint64_t sv_diff_inc(const void*, uint64_t) { return next(); }
struct FixedBuf : std::streambuf { char b[4096]; FixedBuf() { setp(b, b + sizeof b); } std::string str() { return std::string(b, size_t(pptr() - pbase())); } };
static FixedBuf* g_os;
void* sv_ostream() { bool t = g_track; g_track = false; g_os = new FixedBuf; auto o = new std::ostream(g_os); g_track = t; return o; }
static std::vector<uint64_t> streamed() {
    // pointers are streamed as 0x.. or 0
    std::vector<uint64_t> r;
    std::istringstream is(g_os->str());
    std::string w;
    while (is >> w) r.push_back(std::stoull(w, nullptr, 16));
    return r;
}
uint32_t sv_streamed_count() { bool t = g_track; g_track = false; uint32_t r; { r = uint32_t(streamed().size()); } g_track = t; return r; }
uint64_t sv_streamed(uint32_t i) { bool t = g_track; g_track = false; uint64_t r; { r = streamed().at(i); } g_track = t; return r; }
}

static void on_sig(int s) {
    if (s == SIGALRM) fail("hang", "no termination within the time limit");
    if (s == SIGABRT) fail("abort", "abort/terminate");
    fail("crash", s == SIGSEGV ? "segmentation fault" : "signal");
}

static void run(const char* entry) {
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry);
    if (!fn) fail("replay", "no such entry");
    signal(SIGALRM, on_sig);
    signal(SIGABRT, on_sig);
#ifndef ASAN
    signal(SIGSEGV, on_sig);
    signal(SIGBUS, on_sig);
#endif
    alarm(5);
    g_track = true;
    try { fn(); }
    catch (...) { fail("terminate", "exception escapes"); }
    g_track = false;
    if (!g_leak_ok) {
        uint32_t n = sv_live();
        if (n) { char b[64]; snprintf(b, sizeof b, "%u heap block(s) never released", n); fail("leak", b); }
    }
    if (write(g_out, "OK\n", 3)) {}
    _exit(0);
}

// stdin lines: entry v1 v2 ...    ; for every line the verdict of a child process is printed after "== k"
int main(int argc, char** argv) {
    std::string line;
    int k = 0;
    char buf[1 << 16];
    while (fgets(buf, sizeof buf, stdin)) {
        std::istringstream is(buf);
        std::string entry;
        if (!(is >> entry)) continue;
        std::vector<std::string> in;
        std::string v;
        while (is >> v) in.push_back(v);
        printf("== %d\n", k++);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            dup2(1, 2);
            g_in = &in;
            run(entry.c_str());
        }
        int st;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)) continue;
        printf("FAIL crash: status %d\n", st);
        fflush(stdout);
    }
}
