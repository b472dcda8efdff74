// Common payloads, flavours, and the reference model ("ghost") used by the shared/weak pointer harnesses.
#pragma once
#include "sv.h"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>

struct FA {
    using cbf = xmem::atomic_control_block_factory;
    template <class T> using sp = xmem::shared_ptr<T>;
    template <class T> using wp = xmem::weak_ptr<T>;
    using esf = xmem::enable_shared_from;
    template <class T> using esft = xmem::enable_shared_from_this<T>;
    template <class T, class... A> static sp<T> make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
    template <class T> static sp<T> make_ow() { return xmem::make_shared_for_overwrite<T>(); }
    template <class T> static auto make_ptr(T&& t) { return xmem::make_shared_ptr(std::forward<T>(t)); }
};
struct FL {
    using cbf = xmem::local_control_block_factory;
    template <class T> using sp = xmem::local_shared_ptr<T>;
    template <class T> using wp = xmem::local_weak_ptr<T>;
    using esf = xmem::enable_local_shared_from;
    template <class T> using esft = xmem::enable_local_shared_from_this<T>;
    template <class T, class... A> static sp<T> make(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
    template <class T> static sp<T> make_ow() { return xmem::make_local_shared_for_overwrite<T>(); }
    template <class T> static auto make_ptr(T&& t) { return xmem::make_local_shared_ptr(std::forward<T>(t)); }
};

// ---- payloads: A0 is a base at a non-zero offset of D
static const int MAXO = 12;
struct Ghosts {
    int n = 0;                       // objects constructed so far
    uint8_t dead[MAXO] = {};         // times destroyed
    uint32_t val[MAXO] = {};
    const void* at[MAXO] = {};
};
static Ghosts g;

struct X1 { uint64_t pad = 77; virtual ~X1() = default; };
struct A0 {
    uint32_t id, val;
    A0() : id(uint32_t(++g.n)), val(id * 1000 + 7) { g.val[id] = val; g.at[id] = this; }
    explicit A0(uint32_t v) : id(uint32_t(++g.n)), val(v) { g.val[id] = val; g.at[id] = this; }
    A0(const A0&) = delete;
    virtual ~A0() {
        CHECK(val == g.val[id]);
        CHECK(g.dead[id] == 0);   // destroyed at most once
        ++g.dead[id];
    }
};
struct A : Life<A>, A0 { A() = default; explicit A(uint32_t v) : A0(v) {} };
struct D : Life<D>, X1, A0 { D() = default; explicit D(uint32_t v) : A0(v) {} uint64_t tail = 5; };

// stateful deleter that reports to the ghosts
struct DelLog { int calls = 0; const void* last = nullptr; int tag = 0; };
static DelLog dl[4];
template <class T> struct CountDel {
    int k;
    explicit CountDel(int k = 0) : k(k) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    CountDel(const CountDel<U>& o) : k(o.k) {}
    void operator()(T* p) const { ++dl[k].calls; dl[k].last = p; delete p; }
};

// ---- one owner whose number of further strong and weak references is symbolic
template <class F>
struct Owner {
    typename F::template sp<D> root;
    uint32_t id = 0;
    const void* cb = nullptr;
    uint32_t xs = 0, xw = 0;        // symbolic references held "elsewhere"
    int strong = 0, weak = 0;       // references held by the harness
    int kind = 0;

    void create(int k) {
        kind = k;
        uint32_t v = sv_u32();
        switch (k) {
        case 0: root = F::template make<D>(v); break;
        case 1: root = typename F::template sp<D>(new D(v)); break;
        case 2: { xmem::unique_ptr<D> u(new D(v)); root = typename F::template sp<D>(std::move(u)); } break;
        default: root = typename F::template sp<D>(new D(v), CountDel<D>(1)); break;
        }
        id = uint32_t(g.n);
        cb = root.owner();
        CHECK(cb != nullptr);
        CHECK(root.get() == static_cast<const D*>(static_cast<const A0*>(g.at[id])) );
        CHECK(root.use_count() == 1);
        CHECK(root->val == v);
        strong = 1;
    }
    // give the counters symbolic values
    void forge(bool symw = true) {
        Counter cs;
        bool ok;
        {
            sv_snap(cb);
            typename F::template sp<D> t(root);
            ok = cs.find(cb, 1);
        }
        if (ok) {
            sv_reach("soft:forged-strong");
            xs = sv_u32();
            sv_assume(xs <= 0xFFFFFFFEu - 8);
            cs.set(1 + xs);
            if (cs.size >= 4) sv_assume(uint64_t(root.use_count()) == uint64_t(1) + xs);
            else CHECK(uint64_t(root.use_count()) == uint64_t(1) + xs);
        }
        if (!symw) return;
        {
            sv_snap(cb);
            typename F::template wp<D> t(root);
            ok = cw.find(cb, 1);
        }
        if (ok) {
            xw = sv_u32();
            sv_assume(xw <= 0xFFFFFFFEu - 8);
            cw.set(1 + xw);
            forged = true;
        }
    }
    // the weak pointers elsewhere go away (one by one, each counting as it does here), except when they are all there is:
    // what remains has to be released exactly
    void weak_gone() {
        if (!forged || !(strong > 0 || weak > 0)) return;
        cw.set(cw.get() - xw);
        xw = 0;
    }
    Counter cw;
    bool forged = false;
    uint64_t count() const { return uint64_t(strong) + xs; }
    // what must be true of object and control block after every operation
    void verify() const {
        if (!id) return;
        CHECK(g.dead[id] == (count() == 0 ? 1 : 0));
        CHECK(sv_is_live(cb) == (count() != 0 || uint64_t(weak) + xw != 0));
    }
};

// ghost value of one pointer slot
struct G { int own = 0; uint64_t p = 0; };
