// A stateful allocator that keeps a log of every block; used through the public control block factory functions.
#pragma once
#include "world.h"

struct ALog {
    struct B { const void* p; int id; size_t n, sz, al; bool live; };
    B b[24];
    int n = 0;
    int outstanding(int id) const { int c = 0; for (int i = 0; i < n; ++i) if (b[i].live && b[i].id == id) ++c; return c; }
    int total(int id) const { int c = 0; for (int i = 0; i < n; ++i) if (b[i].id == id) ++c; return c; }
};
static ALog alog;
static size_t alloc_throw_at = size_t(-1);   // throws at this allocation
struct AllocError { int code; };

template <class T> struct SA {
    using value_type = T;
    int id;
    SA() : id(77) {}        // equal to no allocator the harnesses pass
    explicit SA(int id) : id(id) {}
    SA(const SA& o) : id(o.id) { CHECK(id > 0); }
    SA& operator=(const SA& o) { id = o.id; return *this; }
    template <class U> SA(const SA<U>& o) : id(o.id) { CHECK(id > 0); }
    ~SA() { id = -1; asm volatile("" : : "r"(&id) : "memory"); }     // a destroyed allocator is of no use
    T* allocate(size_t n) {
        if (size_t(alog.n) == alloc_throw_at) { alloc_throw_at = size_t(-1); throw AllocError{41}; }
        auto p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
        alog.b[alog.n++] = ALog::B{p, id, n, sizeof(T), alignof(T), true};
        return p;
    }
    void deallocate(T* p, size_t n) {
        bool found = false;
        CHECK(id > 0);
        for (int i = 0; i < alog.n; ++i) {
            auto& b = alog.b[i];
            if (b.p == p && b.live) {
                CHECK(b.id == id);           // an equal allocator
                CHECK(b.n == n);             // the same element count
                CHECK(b.sz == sizeof(T));
                b.live = false;
                found = true;
                break;
            }
        }
        CHECK(found);
        ::operator delete(p, std::align_val_t(alignof(T)));
    }
    template <class U> bool operator==(const SA<U>& o) const { return id == o.id; }
    template <class U> bool operator!=(const SA<U>& o) const { return id != o.id; }
};
