// C09, C10: the source of a move assignment lives inside the object the assignment disposes of (head = std::move(head->next)),
// and destructors that replace what the pointer being assigned holds: each object goes exactly once, through the deleter it was
// last paired with, and the deleter afterwards is the one that came with the value held.
#include "sv.h"
#include <xmem/unique_ptr.hpp>
#include <xmem/shared_ptr.hpp>

static const int MAXO = 16;
static int made;
static uint8_t gone[MAXO];
static uint32_t pair_of[MAXO], tags[4];
static void (*hook)(int id);
static void mktags() {
    for (auto& t : tags) t = sv_u32();
    for (int i = 0; i < 4; ++i) { sv_assume(tags[i] != 0); for (int j = 0; j < i; ++j) sv_assume(tags[i] != tags[j]); }
}
struct X1 { uint64_t pad = 1; virtual ~X1() = default; };
template <class KK> struct Node;
template <class KK> struct DNode;
struct N0 {
    int id; uint32_t mark;
    N0() : id(++made), mark(uint32_t(id) * 11) {}
    N0(const N0&) = delete;
    virtual ~N0() { CHECK(mark == uint32_t(id) * 11); mark = 0; CHECK(gone[id] == 0); ++gone[id]; }
};
static void dispose(N0* p, uint32_t tag) {
    CHECK(p != nullptr);
    CHECK(p->mark == uint32_t(p->id) * 11);
    CHECK(gone[p->id] == 0);
    CHECK(pair_of[p->id] == tag);
    if (hook) hook(p->id);
    delete p;
}
template <class T> struct Del {
    uint32_t tag = 0; bool valid = false;
    explicit Del(uint32_t t) : tag(t), valid(true) {}
    Del(Del&& o) noexcept : tag(o.tag), valid(o.valid) { o.valid = false; }
    Del& operator=(Del&& o) noexcept { if (this != &o) { tag = o.tag; valid = o.valid; o.valid = false; } return *this; }
    template <class U> Del(Del<U>&& o) noexcept : tag(o.tag), valid(o.valid) { o.valid = false; }
    template <class U> Del& operator=(Del<U>&& o) noexcept { tag = o.tag; valid = o.valid; o.valid = false; return *this; }
    void operator()(T* p) { CHECK(valid); dispose(p, tag); }
};
struct RDel { uint32_t tag; void operator()(N0* p) { dispose(p, tag); } };
struct RDelX { uint64_t pad = 8; virtual void f() {} };
struct RDel2 : RDelX, RDel { RDel2() : RDel{0} {} };
static RDel rds[4];
static RDel2 rd2s[4];
struct KF;
template <int I> void fdel(Node<KF>* p);
using Fn = void (*)(Node<KF>*);
static const Fn fns[4] = {&fdel<0>, &fdel<1>, &fdel<2>, &fdel<3>};
struct FnLike { int i = 2; operator Fn() const { return fns[i]; } void operator()(Node<KF>* p) const { fns[i](p); } };

struct KD { template <class T> using U = xmem::unique_ptr<T>; template <class T> using C = xmem::unique_ptr<T>;
    template <class P, class T> static P mk(T* p, int) { return P(p); }
    template <class P, class T> static P mkc(T* p, int) { return P(p); }
    template <class P> static uint32_t tag(P&) { return 0; } };
struct KV { template <class T> using U = xmem::unique_ptr<T, Del<T>>; template <class T> using C = xmem::unique_ptr<T, Del<T>>;
    template <class P, class T> static P mk(T* p, int t) { if (p) pair_of[p->id] = tags[t]; return P(p, typename P::deleter_type(tags[t])); }
    template <class P, class T> static P mkc(T* p, int t) { return mk<P>(p, t); }
    template <class P> static uint32_t tag(P& u) { CHECK(u.get_deleter().valid); return u.get_deleter().tag; } };
struct KR { template <class T> using U = xmem::unique_ptr<T, RDel&>; template <class T> using C = xmem::unique_ptr<T, RDel2&>;
    template <class P, class T> static P mk(T* p, int t) { rds[t].tag = tags[t]; if (p) pair_of[p->id] = tags[t]; return P(p, rds[t]); }
    template <class P, class T> static P mkc(T* p, int t) { rd2s[t].tag = tags[t]; if (p) pair_of[p->id] = tags[t]; return P(p, rd2s[t]); }
    template <class P> static uint32_t tag(P& u) { return u.get_deleter().tag; } };
struct KF { template <class T> using U = xmem::unique_ptr<T, Fn>; template <class T> using C = xmem::unique_ptr<T, FnLike>;
    template <class P, class T> static P mk(T* p, int t) { if (p) pair_of[p->id] = tags[t]; return P(p, fns[t]); }
    template <class P, class T> static P mkc(T* p, int t) { if (p) pair_of[p->id] = tags[t]; return P(p, FnLike{t}); }
    template <class P> static uint32_t tag(P& u) { auto f = u.get_deleter(); for (int i = 0; i < 4; ++i) if (f == fns[i]) return tags[i]; return 0; } };

template <class KK> struct Node : N0 {
    using U = typename KK::template U<Node>; using C = typename KK::template C<DNode<KK>>;
    U next; C cnext;
    Node() : next(KK::template mk<U>((Node*)nullptr, 3)), cnext(KK::template mkc<C>((DNode<KK>*)nullptr, 3)) {}
};
template <int I> void fdel(Node<KF>* p) { dispose(p, tags[I]); }
template <class KK> struct DNode : X1, Node<KK> {};

// head = std::move(head->next), same type and converting, one or two links, with and without a following object
template <class KK, bool Conv> static void pop() {
    using N = Node<KK>; using U = typename N::U; using C = typename N::C;
    mktags();
    {
        N* n1 = sv_choose(2) ? new N : static_cast<N*>(new DNode<KK>);
        U head = KK::template mk<U>(n1, 0);
        N* want = nullptr; uint32_t wt = std::is_same<KK, KD>::value ? 0 : tags[3];
        if (sv_choose(2)) {
            auto d = new DNode<KK>;
            if (Conv) n1->cnext = KK::template mkc<C>(d, 2); else n1->next = KK::template mk<U>(static_cast<N*>(d), 1);
            want = d; wt = pair_of[d->id];
            if (sv_choose(2)) d->next = KK::template mk<U>(new N, 2);
        }
        int id1 = n1->id;
        if constexpr (Conv) { auto& r = (head = std::move(head->cnext)); CHECK(&r == &head); }
        else { auto& r = (head = std::move(head->next)); CHECK(&r == &head); }
        CHECK(gone[id1] == 1);
        CHECK(head.get() == want);
        CHECK(KK::tag(head) == wt);
        for (int i = 2; i <= made; ++i) CHECK(gone[i] == 0);
        if (want) {
            int id2 = want->id; bool more = bool(want->next); N* third = want->next.get();
            CHECK(want->mark == uint32_t(id2) * 11);
            head = std::move(head->next);
            CHECK(gone[id2] == 1); CHECK(head.get() == third); CHECK(bool(head) == more);
            CHECK(KK::tag(head) == (std::is_same<KK, KD>::value ? 0 : more ? tags[2] : tags[3]));
        }
        sv_obs(uint64_t(made)); sv_obs(KK::tag(head));
    }
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
ENTRY h_pop_def() { pop<KD, false>(); }
ENTRY h_pop_val() { pop<KV, false>(); }
ENTRY h_pop_ref() { pop<KR, false>(); }
ENTRY h_pop_fun() { pop<KF, false>(); }
ENTRY h_popc_def() { pop<KD, true>(); }
ENTRY h_popc_val() { pop<KV, true>(); }
ENTRY h_popc_ref() { pop<KR, true>(); }
ENTRY h_popc_fun() { pop<KF, true>(); }

// arrays: u = std::move(u[i].next)
template <bool Stateful> struct El;
template <class T> struct ADel {
    uint32_t tag = 0; bool valid = false;
    ADel() = default;
    explicit ADel(uint32_t t) : tag(t), valid(true) {}
    ADel(ADel&& o) noexcept : tag(o.tag), valid(o.valid) { o.valid = false; }
    ADel& operator=(ADel&& o) noexcept { if (this != &o) { tag = o.tag; valid = o.valid; o.valid = false; } return *this; }
    void operator()(T* p) { CHECK(p && valid); CHECK(pair_of[p->id] == tag); delete[] p; }
};
template <bool S> using AU = std::conditional_t<S, xmem::unique_ptr<El<S>[], ADel<El<S>>>, xmem::unique_ptr<El<S>[]>>;
template <bool S> struct El { int id; AU<S> next; El() : id(++made) {} El(const El&) = delete; ~El() { CHECK(gone[id] == 0); ++gone[id]; } };
template <bool S> static AU<S> mka(int n, int t) {
    auto p = new El<S>[n]; pair_of[p->id] = tags[t];
    if constexpr (S) return AU<S>(p, ADel<El<S>>(tags[t])); else return AU<S>(p);
}
template <bool S> static void popa() {
    mktags();
    {
        AU<S> u = mka<S>(2, 0);                       // 1 2
        int i = int(sv_choose(2));
        u[i].next = mka<S>(1, 1);                     // 3
        auto p = u[i].next.get();
        u = std::move(u[i].next);
        CHECK(u.get() == p);
        CHECK(gone[1] == 1 && gone[2] == 1 && gone[3] == 0);
        CHECK(u[0].id == 3);
        if constexpr (S) CHECK(u.get_deleter().valid && u.get_deleter().tag == tags[1]);
        u = std::move(u[0].next);                     // nothing there
        CHECK(!u && gone[3] == 1);
        sv_obs(uint64_t(made));
    }
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
ENTRY h_popa_def() { popa<false>(); }
ENTRY h_popa_val() { popa<true>(); }

// the object being replaced by a move assignment is disposed of by its own deleter, and what that disposal puts into the pointer
// (a reset, or another assignment) is paired with the deleter held at that time
template <class KK> struct H { using N = Node<KK>; using U = typename N::U; static inline U* u; static inline U* o; static inline int act, runs; };
template <class KK, bool Conv> static void reentrant() {
    using h = H<KK>; using N = Node<KK>; using U = typename N::U; using C = typename N::C;
    mktags();
    {
        U u = KK::template mk<U>(new N, 0);                           // 1
        U o = KK::template mk<U>(new N, 1);                           // 2
        U src = KK::template mk<U>(new N, 1);                         // 3
        C csrc = KK::template mkc<C>(new DNode<KK>, 2);               // 4
        h::u = &u; h::o = &o; h::runs = 0; h::act = int(sv_choose(5));
        hook = [](int id) {
            if (id != 1) return;
            ++h::runs;
            CHECK(h::u->get() && h::u->get()->id == (Conv ? 4 : 3));
            CHECK(KK::tag(*h::u) == (Conv ? tags[2] : tags[1]));      // the deleter came with the value
            switch (h::act) {
            case 1: h::u->reset(); break;
            case 2: { N* p = new N; pair_of[p->id] = KK::tag(*h::u); h::u->reset(p); } break;
            case 3: *h::u = std::move(*h::o); break;
            case 4: h::u->swap(*h::o); break;
            default: break;
            }
        };
        if constexpr (Conv) u = std::move(csrc); else u = std::move(src);
        hook = nullptr;
        CHECK(h::runs == 1);
        CHECK(gone[1] == 1);
        int id = Conv ? 4 : 3;
        if (h::act == 1) { CHECK(!u); CHECK(gone[id] == 1); }
        else CHECK(u && u->id == (h::act == 2 ? 5 : h::act == 3 || h::act == 4 ? 2 : id));
        if (u) CHECK(KK::tag(u) == pair_of[u->id]);
        if (h::act == 4) CHECK(o && KK::tag(o) == pair_of[o->id]);
        sv_obs(uint64_t(made)); sv_obs(u ? uint64_t(u->id) : 0);
    }
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
ENTRY h_ree_val() { reentrant<KV, false>(); }
ENTRY h_ree_ref() { reentrant<KR, false>(); }
ENTRY h_ree_fun() { reentrant<KF, false>(); }
ENTRY h_reec_val() { reentrant<KV, true>(); }
ENTRY h_reec_ref() { reentrant<KR, true>(); }
ENTRY h_reec_fun() { reentrant<KF, true>(); }
