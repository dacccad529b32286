// Containers of the cost world (property C31).
#include "kinds2.hpp"
#include "cost.hpp"
namespace sim {
using namespace dstruct;
typedef SimAlloc<1> A1; typedef SimAlloc<2> A2; typedef SimAlloc<3> A3;
template <class C, class D> struct CostBase : CostObj {
    void *mem, *other; Rng rng; u64 serial; CostBase() : rng(7), serial(0) { mem = obj_alloc(sizeof(C)); other = obj_alloc(sizeof(C)); }
    C &c() { return *(C *)mem; }
    void create() { LIB(D::cons(mem)); }
    static void cons(void *m) { new (m) C(); }
    void destroy() { LIB(c().~C()); }
    template <class X> static auto szof(X &x, int) -> decltype((u64)x.size()) { u64 n; LIB(n = x.size()); return n; }
    template <class X> static u64 szof(X &, long) { return 0; }
    u64 size() { return szof(c(), 0); }
    // there and back again
    void moves(u32 k, Work &w) { for (u32 i = 0; i < k; i++) { LIB(new (other) C(dstruct::move(c()))); LIB(c() = dstruct::move(*(C *)other)); LIB(((C *)other)->~C()); } w.calls = 3 * k; }
    // a copy, an assignment of it, and the end of both
    void copies(Work &w) { u64 n = size(); LIB(new (other) C((const C &)c())); LIB(c() = *(const C *)other); LIB(((C *)other)->~C()); w.calls = 4 * n + 4; }
    void walk(Work &w) { u64 n = 0; { LibScope ls; for (auto it = c().begin(), e = c().end(); it != e; ++it) n++; } w.calls = n + 1; }
    void walk2(Work &w) { u64 n = 0; { LibScope ls; const C &x = c(); for (auto it = x.begin(); it != x.end(); it++) n++; } w.calls = n + 1; }
    void sizes(u32 k, Work &w) { for (u32 i = 0; i < k; i++) { LibScope ls; (void)c().size(); (void)c().empty(); } w.calls = 2 * k; }
    void clears(Work &w) { w.calls = size() + 1; LIB(c().clear()); }
    // to the place where a call that is normally cheap pays for the others, and to and fro across it
    template <class F, class G> void edge(F push, G pop, u32 r, Work &w) {
        u64 n = size(), lim = std::min<u64>(3 * n + 16, 60000); bool up = r & 1; u64 m = n; w.slack = 2 * n; w.calls = 0;
        for (u64 i = 0; i < lim && (up || m > 1); i++) { u64 t = g_ticks; up ? push() : pop(); m += up ? 1 : -1; w.calls++; if (g_ticks - t > 300 + m / 2) break; }
        for (u32 i = 0; i < 300; i++) { u32 j = 1 + rng.below(4); bool dir = (i & 1) != up; for (u32 q = 0; q < j; q++) { if (!dir && m > 1) { pop(); m--; } else { push(); m++; } w.calls++; } }
        w.slack += m;
    }
    template <class F> void times(u32 k, Work &w, bool amortised, F f) { if (amortised) w.slack = size(); for (u32 i = 0; i < k; i++) f(); w.calls = k; if (amortised) w.slack += size(); }
};
#define NAMES(...) static const char *const *names(int &n) { static const char *const t[] = {__VA_ARGS__}; n = sizeof t / sizeof *t; return t; } int n_ops() { int n; names(n); return n; } const char *op_name(int k) { int n; return names(n)[k]; }
// both ends as far as the type has them
template <class C, class T, int ENDS, int IDX, bool SIZE, bool AMORT, bool CLEAR> struct CSeq : CostBase<C, CSeq<C, T, ENDS, IDX, SIZE, AMORT, CLEAR> > {
    typedef CostBase<C, CSeq> B; using B::c; u64 cnt; CSeq() : cnt(0) {}
    static CostObj *mk() { return new CSeq(); }
    enum { PUSH, POP, SLIDE, EDGE, PFRONT, QFRONT, SLIDE2, EDGE2, INDEX, WALK, MOVE, COPY, SIZES, CLR, ENDV };
    NAMES("push", "pop", "slide", "edge", "push_front", "pop_front", "slide_back", "edge_front", "index", "walk", "move", "copy", "sizes", "clear", "ends")
    typedef std::integral_constant<int, ENDS> E;   // 1: push/pop are the only ends; 2: also push_back/pop_front...; 3: all four
    int grow_op(u32 r) { return ENDS >= 2 && (r & 1) ? PFRONT : PUSH; }
    u64 size() { return sz(std::integral_constant<bool, SIZE>()); }
    u64 sz(std::true_type) { u64 n; LIB(n = c().size()); return n; } u64 sz(std::false_type) { return cnt; }
    void push() { T t = Val<T>::mk((int)(this->serial++ % 30000)); cnt++; back(t, E()); }
    template <class I> void back(const T &t, I) { LIB(c().push_back(t)); } void back(const T &t, std::integral_constant<int, 1>) { LIB(c().push(t)); }
    void pop() { cnt--; unback(E()); }
    template <class I> void unback(I) { LIB(c().pop_back()); } void unback(std::integral_constant<int, 1>) { LIB(c().pop()); } void unback(std::integral_constant<int, 2>) { LIB(c().pop_front()); }
    void pushf() { T t = Val<T>::mk((int)(this->serial++ % 30000)); cnt++; fr(t, E()); }
    template <class I> void fr(const T &t, I) { LIB(c().push_front(t)); } void fr(const T &t, std::integral_constant<int, 1>) { LIB(c().push(t)); } void fr(const T &t, std::integral_constant<int, 0>) { LIB(c().push_back(t)); }
    void popf() { cnt--; unfr(E()); }
    template <class I> void unfr(I) { LIB(c().pop_front()); } void unfr(std::integral_constant<int, 1>) { LIB(c().pop()); } void unfr(std::integral_constant<int, 0>) { LIB(c().pop_back()); }
    template <class I> void at(u32 i, I) { LibScope ls; (void)vo(c()[(int)i]); } void at(u32, std::integral_constant<int, 0>) {}
    template <class CC> auto ends(CC &x, int) -> decltype((void)x.front(), (void)x.back()) { LibScope ls; (void)vo(x.front()); (void)vo(x.back()); }
    template <class CC> auto ends(CC &x, long) -> decltype((void)x.top()) { LibScope ls; (void)vo(x.top()); xv(x, 0); }
    template <class CC> auto xv(CC &x, int) -> decltype((void)x.getXValue()) { (void)vo(x.getXValue()); } template <class CC> void xv(CC &, long) {}
    void cl(std::true_type, Work &w) { w.calls = size() + 1; LIB(c().clear()); cnt = 0; } void cl(std::false_type, Work &w) { w.calls = 1; }
    void szs(std::true_type, u32 k, Work &w) { this->sizes(k, w); } void szs(std::false_type, u32 k, Work &w) { for (u32 i = 0; i < k; i++) LIB((void)c().empty()); w.calls = k; }
    void cps(Work &w) { u64 n = size(); LIB(new (this->other) C((const C &)c())); LIB(c() = *(const C *)this->other); LIB(((C *)this->other)->~C()); w.calls = 4 * n + 4; }
    void run(int op, u32 k, u32 r, Work &w) {
        u64 n = size(); if (!n && (op == POP || op == QFRONT || op == INDEX || op == ENDV || op == EDGE || op == EDGE2)) op = PUSH;
        struct Up { CSeq *s; bool front; void operator()() { front ? s->pushf() : s->push(); } }; struct Dn { CSeq *s; bool front; void operator()() { front ? s->popf() : s->pop(); } };
        Up up = {this, false}, upf = {this, true}; Dn dn = {this, false}, dnf = {this, true};
        if (op == INDEX && IDX == 2) k = k % 8 + 1;
        if (op == POP || op == QFRONT) { k = (u32)std::min<u64>(k, n); }
        w.slack = AMORT ? n : 0;
        switch (op) {
        case PUSH: for (u32 i = 0; i < k; i++) push(); w.calls = k; break;
        case POP: for (u32 i = 0; i < k; i++) pop(); w.calls = k; break;
        case SLIDE: for (u32 i = 0; i < k; i++) { push(); popf(); } w.calls = 2 * k; break;
        case EDGE: edge_(up, dn, r, w); break;
        case PFRONT: for (u32 i = 0; i < k; i++) pushf(); w.calls = k; break;
        case QFRONT: for (u32 i = 0; i < k; i++) popf(); w.calls = k; break;
        case SLIDE2: for (u32 i = 0; i < k; i++) { pushf(); pop(); } w.calls = 2 * k; break;
        case EDGE2: edge_(upf, dnf, r, w); break;
        case INDEX: w.slack = 0; for (u32 i = 0; i < k; i++) at(this->rng.below((u32)n), std::integral_constant<int, IDX>()); w.calls = IDX == 2 ? k * n : k; break;   // 2: an index is reached by walking
        case WALK: w.slack = 0; if (r & 1) this->walk(w); else this->walk2(w); break;
        case MOVE: w.slack = 0; this->moves(1 + k % 20, w); break;
        case COPY: cps(w); break;
        case SIZES: w.slack = 0; szs(std::integral_constant<bool, SIZE>(), k, w); break;
        case CLR: if (r % 8) { this->walk(w); break; } cl(std::integral_constant<bool, CLEAR>(), w); break;
        case ENDV: w.slack = 0; for (u32 i = 0; i < k; i++) ends(c(), 0); w.calls = 2 * k; break;
        }
        if (AMORT && w.slack) w.slack += size();
    }
    template <class U, class V> void edge_(U up, V dn, u32 r, Work &w) {
        u64 m = size(), lim = std::min<u64>(3 * m + 16, 60000); bool rise = r & 1; u64 calls = 0, base = AMORT ? 3 * m : 0;
        for (u64 i = 0; i < lim && (rise || m > 1); i++) { u64 t = g_ticks; if (rise) up(), m++; else dn(), m--; calls++; if (g_ticks - t > 300 + m / 2) break; }
        for (u32 i = 0; i < 300; i++) { u32 j = 1 + this->rng.below(4); bool dir = (i & 1) != rise; for (u32 q = 0; q < j; q++) { if ((!dir && m > 1) || m > 70000) { dn(); m--; } else { up(); m++; } calls++; } }
        w.calls = calls; w.slack = AMORT ? base + m : 0;
    }
};
template <class C, class T> struct CHeap : CostBase<C, CHeap<C, T> > {
    typedef CostBase<C, CHeap> B; using B::c;
    static CostObj *mk() { return new CHeap(); }
    NAMES("push_up", "push_down", "push_any", "pop", "replace", "top", "walk", "move", "copy", "sizes", "edge")
    int grow_op(u32 r) { return (int)(r % 3); }
    void push(int v) { T t = Val<T>::mk(v); LIB(c().push(t)); }
    void pop() { LIB(c().pop()); }
    void run(int op, u32 k, u32 r, Work &w) {
        u64 n = this->size(); if (!n && (op == 3 || op == 4 || op == 5 || op == 10)) op = 2;
        w.slack = 2 * n; w.lg = true;
        switch (op) {
        case 0: for (u32 i = 0; i < k; i++) push(20000 + (int)(this->serial++ % 10000)); w.calls = k; break;
        case 1: for (u32 i = 0; i < k; i++) push(20000 - (int)(this->serial++ % 10000)); w.calls = k; break;
        case 2: for (u32 i = 0; i < k; i++) push((int)this->rng.below(r & 4 ? 3 : 30000)); w.calls = k; break;
        case 3: k = (u32)std::min<u64>(k, n); for (u32 i = 0; i < k; i++) pop(); w.calls = k; break;
        case 4: for (u32 i = 0; i < k; i++) { pop(); push((int)this->rng.below(30000)); } w.calls = 2 * k; break;
        case 5: w.slack = 0; w.lg = false; for (u32 i = 0; i < k; i++) { LibScope ls; (void)vo(c().top()); } w.calls = k; break;
        case 6: w.slack = 0; w.lg = false; if (r & 1) this->walk(w); else this->walk2(w); break;
        case 7: w.slack = 0; w.lg = false; this->moves(1 + k % 20, w); break;
        case 8: w.slack = 0; w.lg = false; this->copies(w); break;
        case 9: w.slack = 0; w.lg = false; this->sizes(k, w); break;
        case 10: { struct Up { CHeap *s; void operator()() { s->push((int)s->rng.below(30000)); } } up = {this}; struct Dn { CHeap *s; void operator()() { s->pop(); } } dn = {this}; this->edge(up, dn, r, w); break; }
        }
        if (w.slack) w.slack += this->size();
    }
};
// keys as a set of the harness, so that pushes are of absent and pops of present ones
template <class C, class T> struct TreeOps { 
    static void push(C &c, int v) { T t = Val<T>::mk(v); LIB(c.push(t)); }
    static void pop(C &c, int v) { T t = Val<T>::mk(v); LIB(c.pop(t)); }
    static bool find(C &c, int v) { T t = Val<T>::mk(v); LibScope ls; auto it = c.find(t); return it != c.end(); }
    static void erase(C &c, int v) { T t = Val<T>::mk(v); LibScope ls; auto it = c.find(t); c.erase(it); }
    static void read(C &c, int v) { find(c, v); }
};
template <class C, class K> struct MapOps { 
    static void push(C &c, int v) { K k = Val<K>::mk(v); if (v & 1) { LIB(c[k] = Val<int>::mk(v)); } else { LIB(c.push({k, v})); } }
    static void pop(C &c, int v) { K k = Val<K>::mk(v); LIB(c.pop(k)); }
    static bool find(C &c, int v) { K k = Val<K>::mk(v); LibScope ls; auto it = c.find(k); return it != c.end(); }
    static void erase(C &c, int v) { K k = Val<K>::mk(v); LibScope ls; auto it = c.find(k); c.erase(it); }
    static void read(C &c, int v) { K k = Val<K>::mk(v); LibScope ls; if (v & 2) (void)c[k]; else (void)((const C &)c)[k]; }
};
template <class C, class O> struct CTree : CostBase<C, CTree<C, O> > {
    typedef CostBase<C, CTree> B; using B::c; std::set<int> in;
    static CostObj *mk() { return new CTree(); }
    NAMES("push_up", "push_down", "push_any", "pop", "erase", "find", "find_absent", "walk", "move", "copy", "sizes", "replace", "pop_low", "pop_high", "clear", "read")
    int grow_op(u32 r) { return (int)(r % 3); }
    int any(u32 x) { auto it = in.lower_bound((int)(x % 1000000)); return it == in.end() ? *in.begin() : *it; }
    void push(int v) { while (in.count(v)) v = (v + 1) % 1000000; in.insert(v); O::push(c(), v); }
    void drop(int v, bool er) { in.erase(v); if (er) O::erase(c(), v); else O::pop(c(), v); }
    void run(int op, u32 k, u32 r, Work &w) {
        if (in.empty() && (op == 3 || op == 4 || op == 5 || op == 11 || op == 12 || op == 13 || op == 15)) op = 2;
        w.lg = true; u64 n = in.size();
        if (op == 3 || op == 4 || op == 12 || op == 13) k = (u32)std::min<u64>(k, n);
        switch (op) {
        case 0: for (u32 i = 0; i < k; i++) push(in.empty() ? 500000 : std::min(999000, *in.rbegin() + 1)); w.calls = k; break;
        case 1: for (u32 i = 0; i < k; i++) push(in.empty() ? 500000 : std::max(0, *in.begin() - 1)); w.calls = k; break;
        case 2: for (u32 i = 0; i < k; i++) push((int)this->rng.below(1000000)); w.calls = k; break;
        case 3: case 4: for (u32 i = 0; i < k; i++) drop(any((u32)this->rng.next()), op == 4); w.calls = k; break;
        case 5: for (u32 i = 0; i < k; i++) O::find(c(), any((u32)this->rng.next())); w.calls = k; break;
        case 6: for (u32 i = 0; i < k; i++) { int v = (int)this->rng.below(1000000); O::find(c(), v); } w.calls = k; break;
        case 7: w.lg = false; if (r & 1) this->walk(w); else this->walk2(w); break;
        case 8: w.lg = false; this->moves(1 + k % 20, w); break;
        case 9: w.lg = false; this->copies(w); break;
        case 10: w.lg = false; this->sizes(k, w); break;
        case 11: for (u32 i = 0; i < k; i++) { drop(any((u32)this->rng.next()), i & 1); push((int)this->rng.below(1000000)); } w.calls = 2 * k; break;
        case 12: for (u32 i = 0; i < k; i++) drop(*in.begin(), r & 1); w.calls = k; break;
        case 13: for (u32 i = 0; i < k; i++) drop(*in.rbegin(), r & 1); w.calls = k; break;
        case 14: if (r % 8) { w.lg = false; this->walk(w); break; } w.lg = false; this->clears(w); in.clear(); break;
        case 15: for (u32 i = 0; i < k; i++) O::read(c(), any((u32)this->rng.next())); w.calls = k; break;
        }
    }
};
template <class C> struct CUF : CostBase<C, CUF<C> > {
    typedef CostBase<C, CUF> B; using B::c; u64 last; CUF() : last(0) {}
    static CostObj *mk() { return new CUF(); }
    static void cons(void *m) { new (m) C(20000); }
    
    NAMES("connect_any", "connect_chain", "connect_star", "connected", "find", "count", "move", "restart", "connect_pairs")
    int grow_op(u32) { return 7; }
    void run(int op, u32 k, u32 r, Work &w) {
        u32 m = 20000; w.lg = true;
        switch (op) {
        case 0: for (u32 i = 0; i < k; i++) { int a = (int)this->rng.below(m), b = (int)this->rng.below(m); LIB(c().connect(a, b)); } w.calls = k; break;
        case 1: { u32 s = r & 8 ? (u32)last : r % m; last = (s + k) % m; for (u32 i = 0; i < k; i++) { int a = (int)((s + i) % m), b = (int)((s + i + 1) % m); if (r & 1) { LIB(c().connect(a, b)); } else { LIB(c().connect(b, a)); } } w.calls = k; break; }
        case 2: { int h = (int)(r % m); for (u32 i = 0; i < k; i++) { int b = (int)this->rng.below(m); if (r & 1) { LIB(c().connect(h, b)); } else { LIB(c().connect(b, h)); } } w.calls = k; break; }
        case 3: for (u32 i = 0; i < k; i++) { int a = (int)((last + m - this->rng.below(r & 8 ? 400 : m)) % m), b = (int)this->rng.below(m); LIB((void)c().connected(a, b)); } w.calls = k; break;
        case 4: for (u32 i = 0; i < k; i++) { int a = (int)((last + m - this->rng.below(r & 8 ? 4000 : m)) % m); LIB((void)c().find(a)); } w.calls = k; break;
        case 5: w.lg = false; w.calls = m; LIB((void)c().count()); break;
        case 6: w.lg = false; for (u32 i = 0; i < 10; i++) { LIB(new (this->other) C(dstruct::move(c()))); LIB(c() = dstruct::move(*(C *)this->other)); LIB(((C *)this->other)->~C()); } w.calls = 30; break;
        case 7: w.lg = false; w.calls = 2 * m; LIB(c().~C()); LIB(new (this->mem) C((int)m)); break;
        case 8: { u32 g = 1u << r % 12; for (u32 i = 0; i < k; i++) { u32 a = (i * 2 * g) % m; int x = (int)a, y = (int)((a + g) % m); if (r & 4096) { LIB(c().connect(x, y)); } else { LIB(c().connect(y, x)); } } w.calls = k; break; }
        }
    }
};
// FACTOR: the steps a call may take, six times the dearest burst seen
#define COST(NAME, FACTOR, ...) static RegCost rc_##NAME(#NAME, FACTOR, &__VA_ARGS__::mk)
typedef Vector<int, A1> V1; typedef Vector<E24, A2> V2; typedef DoubleEndedQueue<int, 2, A1> D1; typedef DoubleEndedQueue<E24, 8, A2> D2; typedef Deque<int> D3; typedef Queue<int, A1> Q1; typedef adapter::Queue<E24, DoublyLinkedList<E24, A2> > Q2;
typedef dstruct::Stack<int, A1> S1; typedef adapter::Stack<E24, DoubleEndedQueue<E24, 3, A2> > S2; typedef MinStack<int, A1> X1; typedef MaxStack<E24, A2> X2;
typedef SinglyLinkedList<int, A1> L1; typedef DoublyLinkedList<E24, A2> L2; typedef DoublyLinkedList<int> L3; typedef BasicString<char, A3> T1;
typedef MinHeap<int, A1> H1; typedef PriorityQueue<E24, greater<E24>, A2> H2; typedef AVLTree<int, less<int>, A1> AV1; typedef AVLTree<E24, greater<E24>, A2> AV2;
typedef Map<int, int> M1; typedef Map<E24, int> M2; typedef DisjointSet<A1> U1;
typedef CSeq<V1, int, 0, 1, true, true, true> c1_; COST(Vector_int, 40, c1_); typedef CSeq<V2, E24, 0, 1, true, true, true> c2_; COST(Vector_E24, 400, c2_);
typedef CSeq<D1, int, 3, 2, true, true, true> c3_; COST(Deque_int_2, 320, c3_); typedef CSeq<D2, E24, 3, 2, true, true, true> c4_; COST(Deque_E24_8, 260, c4_); typedef CSeq<D3, int, 3, 2, true, true, true> c5_; COST(Deque_int, 40, c5_);
typedef CSeq<Q1, int, 1, 2, true, true, false> c6_; COST(Queue_int, 55, c6_); typedef CSeq<Q2, E24, 1, 0, true, false, false> c7_; COST(Queue_E24_DList, 305, c7_);
typedef CSeq<S1, int, 1, 0, false, true, false> c8_; COST(Stack_int, 40, c8_); typedef CSeq<S2, E24, 1, 0, false, true, false> c9_; COST(Stack_E24_Deque, 320, c9_);
typedef CSeq<X1, int, 1, 0, false, true, true> c10_; COST(MinStack_int, 65, c10_); typedef CSeq<X2, E24, 1, 0, false, true, true> c11_; COST(MaxStack_E24, 1380, c11_);
typedef CSeq<L1, int, 2, 0, true, false, true> c12_; COST(SinglyLinkedList_int, 25, c12_); typedef CSeq<L2, E24, 3, 0, true, false, true> c13_; COST(DoublyLinkedList_E24, 305, c13_); typedef CSeq<L3, int, 3, 0, true, false, true> c14_; COST(DoublyLinkedList_int, 30, c14_);
typedef CHeap<H1, int> c15_; COST(MinHeap_int, 90, c15_); typedef CHeap<H2, E24> c16_; COST(PriorityQueue_E24, 540, c16_);
typedef CTree<AV1, TreeOps<AV1, int> > c17_; COST(AVLTree_int, 85, c17_); typedef CTree<AV2, TreeOps<AV2, E24> > c18_; COST(AVLTree_E24, 400, c18_);
typedef CTree<M1, MapOps<M1, int> > c19_; COST(Map_int_int, 115, c19_); typedef CTree<M2, MapOps<M2, E24> > c20_; COST(Map_E24_int, 720, c20_);
typedef CUF<U1> c21_; COST(DisjointSet, 12, c21_);
struct CStr : CostBase<T1, CStr> { 
    static CostObj *mk() { return new CStr(); }
    NAMES("push_back", "index", "walk", "move", "copy", "sizes", "clear")
    int grow_op(u32) { return 0; }
    void run(int op, u32 k, u32 r, Work &w) {
        u64 n = size(); if (!n && op == 1) op = 0;
        switch (op) {
        case 0: w.slack = n; for (u32 i = 0; i < k; i++) { char ch = (char)('a' + i % 26); LIB(c().push_back(ch)); } w.calls = k; break;
        case 1: for (u32 i = 0; i < k; i++) { LibScope ls; (void)c()[(int)(rng.below((u32)n))]; } w.calls = k; break;
        case 2: if (r & 1) walk(w); else walk2(w); break;
        case 3: moves(1 + k % 20, w); break;
        case 4: copies(w); break;
        case 5: sizes(k, w); break;
        case 6: if (r % 8) { walk(w); break; } clears(w); break;
        }
        if (w.slack) w.slack += size();
    }
};
COST(String, 80, CStr);
}
