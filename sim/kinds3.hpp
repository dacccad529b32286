// Container kinds, third part: Array, intrusive rings, the range algorithms, the default orders.
#ifndef SIM_KINDS3_HPP
#define SIM_KINDS3_HPP
#include "kinds2.hpp"
#include <limits>

namespace sim {
// ---------------------------------------------------------------- Array
template <class T> struct Gutted { enum { v = 0 }; static int of(int x) { return x; } };
template <int N> struct Gutted<Elem<N, 1> > { enum { v = 1 }; static int of(int) { return -66666; } };
template <class T, int N> struct KArray : KBase<KArray<T, N>, dstruct::Array<T, N>, Seq> {
    typedef dstruct::Array<T, N> C; typedef KBase<KArray<T, N>, C, Seq> B; using B::m; using B::c; using B::cc; using B::mem;
    static void construct(void *mem, int var) { if (var & 1) new (mem) C(Val<T>::mk(7)); else { C *x = new (mem) C(); for (int i = 0; i < N; i++) (*x)[i] = Val<T>::mk(7); } }
    static Seq fresh(int) { return Seq((size_t)N, 7); }
    static Seq moved(const Seq &s) { Seq o = s; for (int &v : o) v = Gutted<T>::of(v); return o; }
    static size_t model_size(const Seq &s) { return s.size(); }
    void do_clear() { for (int i = 0; i < N; i++) put(i, 7); }
    void put(int i, int v) { T t = Val<T>::mk(v); LIB((*c())[i] = t); m[(size_t)(i < 0 ? i + N : i)] = v; }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"write_index", 20}, {"write_iter", 5}, {"copy_within", 6}, {"bulk_write", 6}, {"construct_fill", 3}, {"construct_own", 2}}; n = sizeof t / sizeof *t; return t; }
    template <class CC> void obs(CC &x, Obs &o) {
        o.put((i64)x.size()); o.put(x.empty()); o.put(x.capacity() >= x.size()); size_t n = (size_t)x.size(); if (n > (1u << 24)) return;
        obs_forward(x, o, n); obs_forward_post(x, o, n); obs_index(x, o, n); obs_backward(x, o, n); obs_jumps(x, o, n);
        if (n) { o.put(vo(x.front())); o.put(vo(x.back())); } o.put(MK_END);
    }
    void mobs(const Seq &s, Obs &o) { o.put((i64)s.size()); o.put(s.empty()); o.put(1); mobs_forward(s, o); mobs_forward(s, o); mobs_index(s, o); mobs_backward(s, o); mobs_jumps(s, o); if (!s.empty()) { o.put(s.front()); o.put(s.back()); } o.put(MK_END); }
    void generic(int g, u32 a, u32 b, Obj *p) { if (g == G_SELF_MOVE || (g == G_MOVE_ASSIGN && !p)) { if (Gutted<T>::v) return; } B::generic(g, a, b, p); }
    void kop(int k, u32 a, u32 b) {
        if (!N) return;
        switch (k) {
        case 0: { int i = (int)(b % (u32)(2 * N)) - N; put(i, NEWVAL(a)); break; }
        case 1: { u32 st = 1 + b % 3; { LibScope ls; u32 i = 0; for (auto it = c()->begin(); it != c()->end(); ++it, i++) { if (i % st) continue; *it = Val<T>::mk((int)((a + i) % 200)); bool l = g_in_lib; g_in_lib = false; if (i < (u32)N) m[i] = (int)((a + i) % 200); g_in_lib = l; } } break; }
        case 2: { int i = (int)(a % (u32)N), j = (int)(b % (u32)N) - N; count(F_ALIASED_ARG); LIB((*c())[i] = (*c())[j]); m[(size_t)i] = m[(size_t)(j + N)]; break; }
        case 3: for (int i = 0; i < N; i++) if ((b >> (i & 31)) & 1) put((a & 1) ? i : i - N, NEWVAL(a + (u32)i * 7)); break;
        case 4: { int v = NEWVAL(a); T t = Val<T>::mk(v); B::destroy(); LIB(new (mem) C(t)); this->alive = true; m.assign((size_t)N, v); break; }
        case 5: { size_t i = b % (u32)N; int v = m[i]; count(F_ALIASED_ARG); void *t = this->tmp; this->junk(t, sizeof(C)); LIB(new (t) C((*cc())[(int)i])); { LibScope ls; *c() = *(const C *)t; ((C *)t)->~C(); } this->junk(t, sizeof(C)); m.assign((size_t)N, v); break; }
        }
    }
};

// ---------------------------------------------------------------- intrusive rings: nodes belong to the caller, here one of the simulated heap's blocks each
// (CHAIN: the same links in a list that ends in null instead of closing on its head)
inline void open_ends(dstruct::SinglyLink_ *l) { l->next = nullptr; }
inline void open_ends(dstruct::DoublyLink_ *l) { l->next = l->prev = nullptr; }
template <class T, class Link, bool CHAIN> struct RingObj { typedef dstruct::EmbeddedListNode_<T, Link> Node; Node head; RingObj() { start(); } void start() { Node::init(&head); if (CHAIN) open_ends(Node::to_link(&head)); } };
template <class T, class Link, bool DBL, int DOM, bool CHAIN = false> struct KRing : KBase<KRing<T, Link, DBL, DOM, CHAIN>, RingObj<T, Link, CHAIN>, Seq> {
    typedef RingObj<T, Link, CHAIN> C; typedef typename C::Node Node; typedef KBase<KRing, C, Seq> B; using B::m; using B::c; using B::cc; using B::mem;
    std::vector<Node *> nodes, spare;      // in ring order; taken out and kept for later
    static Seq fresh(int) { return Seq(); }
    static size_t model_size(const Seq &s) { return s.size(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"push_after_head", 12}, {"push_after_some", 18}, {"push_last", 12}, {"pop_first", 10}, {"erase_some", 16}, {"pop_last", 8}, {"bulk_push", 5}, {"bulk_erase", 5}, {"move_node", 8}, {"init_again", 1}, {"slide", 3}}; n = sizeof t / sizeof *t; return t; }
    template <class CC> void obs(CC &x, Obs &o) {
        typedef typename Node::LinkType L; C &y = const_cast<C &>(x); Node *h = &y.head; L *hl = Node::to_link(h);
        if (!CHAIN) { o.put(Node::empty(h)); o.put(L::empty(hl)); } else { o.put(!hl->next); o.put(!hl->next); } o.put(Node::to_node(hl) == h); size_t n = 0, lim = nodes.size() + 64;
        o.put(MK_FWD); for (L *l = hl->next; l && l != hl; l = l->next) { if (n >= lim) { o.put(MK_RUNAWAY); return; } Node *q = Node::to_node(l); if (n >= nodes.size() || q != nodes[n]) { o.put(MK_RUNAWAY); return; } o.put(vo(q->data)); n++; }
        back(hl, o, std::integral_constant<bool, DBL>()); o.put(MK_END);
    }
    void back(dstruct::DoublyLink_ *hl, Obs &o, std::true_type) { o.put(MK_BWD); size_t n = nodes.size(); if (CHAIN && hl->prev) o.put(MK_RUNAWAY); auto *l = CHAIN ? n ? Node::to_link(nodes[n - 1]) : hl : hl->prev; for (; l && l != hl; l = l->prev) { if (!n || Node::to_node(l) != nodes[n - 1]) { o.put(MK_RUNAWAY); return; } n--; o.put(vo(Node::to_node(l)->data)); } }
    void back(dstruct::SinglyLink_ *, Obs &, std::false_type) {}
    void mobs(const Seq &s, Obs &o) { o.put(s.empty()); o.put(s.empty()); o.put(1); mobs_forward(s, o); if (DBL) mobs_backward(s, o); o.put(MK_END); }
    Node *node(int v) { Node *q; if (!spare.empty() && v % 3) { q = spare.back(); spare.pop_back(); q->data = Val<T>::mk(v); } else { q = (Node *)heap_alloc(DOM, sizeof(Node)); new (q) Node; q->data = Val<T>::mk(v); } return q; }
    void give(Node *q, u32 a) { if (a & 1 && spare.size() < 4) spare.push_back(q); else { q->~Node(); heap_free(DOM, q, sizeof(Node)); } }
    void drop_all() { for (Node *q : nodes) { q->~Node(); heap_free(DOM, q, sizeof(Node)); } for (Node *q : spare) { q->~Node(); heap_free(DOM, q, sizeof(Node)); } nodes.clear(); spare.clear(); m.clear(); }
    void destroy() { drop_all(); B::destroy(); }
    void add(size_t at, int v, u32 how) { Node *q = node(v), *p = at ? nodes[at - 1] : &c()->head; if (how & 4) LIB(Node::add(p, q)); else LIB(Link::add(Node::to_link(p), Node::to_link(q))); nodes.insert(nodes.begin() + (long)at, q); m.insert(m.begin() + (long)at, v); }
    Node *take(size_t at, u32 how) { Node *q = nodes[at], *p = at ? nodes[at - 1] : &c()->head; if (how & 4) LIB(Node::del(p, q)); else LIB(Link::del(Node::to_link(p), Node::to_link(q))); nodes.erase(nodes.begin() + (long)at); m.erase(m.begin() + (long)at); return q; }
    void do_clear() { while (!nodes.empty()) give(take(0, (u32)nodes.size()), 0); }
    void generic(int g, u32, u32, Obj *) { if (g == G_RECREATE) { destroy(); this->create(); } else if (g == G_CLEAR) do_clear(); }
    void reader_op(u32, void *, Obs &o) { this->dump_const(o); }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.size();
        if (n >= (size_t)this->cap && (k <= 2 || k == 6)) k = 7;
        if (!n && (k >= 3 && k <= 8) && k != 6) k = 0;
        switch (k) {
        case 0: add(0, NEWVAL(a), b); break;
        case 1: add(b / 8 % (n + 1), NEWVAL(a), b); break;
        case 2: add(n, NEWVAL(a), b); break;
        case 3: give(take(0, b), a); break;
        case 4: give(take(b / 8 % n, b), a); break;
        case 5: give(take(n - 1, b), a); break;
        case 6: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.size() < (size_t)this->cap; i++) add((a + i) % (m.size() + 1), NEWVAL(a + i), b + i); break; }
        case 7: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.empty(); i++) give(take((a + i * 5) % m.size(), b + i), a + i); break; }
        case 8: { size_t f = a % n; int v = m[f]; Node *q = take(f, b); size_t t = b / 8 % (m.size() + 1); Node *p = t ? nodes[t - 1] : &c()->head; LIB(Node::add(p, q)); nodes.insert(nodes.begin() + (long)t, q); m.insert(m.begin() + (long)t, v); break; }
        case 9: LIB(c()->start()); drop_all(); break;      // the ring is started anew, its nodes are the caller's business
        case 10: { u32 x = 1 + b % (u32)(2 * this->bulk); for (u32 i = 0; i < x; i++) { add(m.size(), NEWVAL(a + i), i); if (m.size() > 1 + a % 3) give(take(0, i), i); } break; }
        }
    }
};

// ---------------------------------------------------------------- for_each and find over ranges of a container
template <class K> struct SeqOf { static Seq of(K &k) { return k.m; } };
template <class C, class T, class M, bool A> struct SeqOf<KTree<C, T, M, A> > { static Seq of(KTree<C, T, M, A> &k) { return k.sorted(); } };
template <class C> struct SeqOf<KString<C> > { static Seq of(KString<C> &k) { Seq v; for (char c : k.m) v.push_back(c); return v; } };
template <class It> inline It step(It it, size_t n) { while (n--) ++it; return it; }
template <class X> struct Visit { Obs *o; size_t lim; void operator()(X &x) { CallbackScope cs; if (o->v.size() < lim) o->put(vo(x)); else o->put(MK_RUNAWAY); } };
template <class K, class C, class T, bool MUT> struct KAlg : K {
    static Obj *make() { return new KAlg(); }
    static bool whole(size_t n) { return n <= 12; }
    static void spans(size_t n, std::vector<std::pair<size_t, size_t> > &v) { v.push_back(std::make_pair((size_t)0, n)); v.push_back(std::make_pair((size_t)0, (size_t)0)); v.push_back(std::make_pair(n, n)); if (n) { v.push_back(std::make_pair((size_t)1, n)); v.push_back(std::make_pair((size_t)0, n - 1)); v.push_back(std::make_pair(n / 3, n - n / 3)); v.push_back(std::make_pair(n / 2, n / 2)); } }
    static void probes(const Seq &s, size_t i, size_t j, Seq &v) { v.push_back(-5); if (s.empty()) return; v.push_back(s[0]); v.push_back(s.back()); if (i < j) { v.push_back(s[i]); v.push_back(s[j - 1]); v.push_back(s[(i + j) / 2]); } if (j < s.size()) v.push_back(s[j]); if (i) v.push_back(s[i - 1]); }
    template <class B, class E> static void one(B b, E e, const Seq &pr, size_t n, Obs &o) {
        typedef typename std::remove_reference<decltype(*b)>::type X;
        o.put(MK_TRAV); Visit<X> cb = {&o, o.v.size() + n + 64}; dstruct::algorithm::for_each(b, e, cb);
        o.put(MK_IDX); for (int p : pr) { T t = Val<T>::mk(p); B r = dstruct::algorithm::find(b, e, t); int at = 0, lim = (int)n + 4; B w = b; for (; w != e && w != r && at < lim; ++w) at++; o.put(w != e ? at : r != e ? MK_RUNAWAY : -1); wide(b, e, t, p, r, o, std::integral_constant<bool, std::is_integral<T>::value>()); }
    }
    // a value of a wider type than the elements: found as such, and not because its low bits agree
    template <class B, class E> static void wide(B b, E e, const T &t, int p, B r, Obs &o, std::true_type) {
        long v = (long)t; B q = dstruct::algorithm::find(b, e, v), f = dstruct::algorithm::find(b, e, p & 1 ? v + (1l << 32) : v - (1l << 40));
        o.put(q == r); o.put(f == e);
        if (sizeof(T) < sizeof(int)) { B g = dstruct::algorithm::find(b, e, (int)t + (p & 2 ? 65536 : -65536)); o.put(g == e); }
    }
    template <class B, class E> static void wide(B, E, const T &, int, B, Obs &, std::false_type) {}
    template <class CC> void alg(CC &x, Obs &o) {
        Seq s; std::vector<std::pair<size_t, size_t> > sp; { bool l = g_in_lib; g_in_lib = false; s = SeqOf<K>::of(*this); spans(s.size(), sp); g_in_lib = l; }
        if ((size_t)x.size() != s.size()) { o.put(MK_RUNAWAY); return; }
        for (auto &p : sp) { if (this->light && p != sp[0]) break; Seq pr; { bool l = g_in_lib; g_in_lib = false; probes(s, p.first, p.second, pr); g_in_lib = l; } auto b = step(x.begin(), p.first), e = step(b, p.second - p.first); one(b, e, pr, p.second - p.first, o); }
    }
    virtual void dump(Obs &o) { K::dump(o); LibScope ls; alg(*this->c(), o); }
    virtual void dump_const(Obs &o) { K::dump_const(o); LibScope ls; alg(*this->cc(), o); }
    virtual void expect(Obs &o) {
        K::expect(o); Seq s = SeqOf<K>::of(*this); std::vector<std::pair<size_t, size_t> > sp; spans(s.size(), sp);
        for (auto &p : sp) { if (this->light && p != sp[0]) break; Seq pr; probes(s, p.first, p.second, pr); o.put(MK_TRAV); for (size_t i = p.first; i < p.second; i++) o.put(s[i]); o.put(MK_IDX); for (int v : pr) { int at = -1; for (size_t i = p.first; i < p.second; i++) if (s[i] == v) { at = (int)(i - p.first); break; } o.put(at); if (std::is_integral<T>::value) { o.put(1); o.put(1); if (sizeof(T) < sizeof(int)) o.put(1); } } }
    }
    struct Bump { int d; size_t *calls; void operator()(T &t) { CallbackScope cs; ++*calls; t = Val<T>::mk((vo(t) + d) % (int)MaxVal<T>::v); } };
    void mutate(u32 a, u32 b, std::true_type) {
        size_t n = this->m.size(), i = a % (n + 1), j = i + b % (n - i + 1), calls = 0; Bump cb = {(int)(a % 5), &calls};
        { LibScope ls; auto bg = step(this->c()->begin(), i), e = step(bg, j - i); dstruct::algorithm::for_each(bg, e, cb); }
        if (calls != j - i && this->judge_model) fail("callback", "%s: for_each called back %zu times for %zu positions", this->ki->name, calls, j - i);
        for (size_t k = i; k < j; k++) this->m[k] = (this->m[k] + cb.d) % (int)MaxVal<T>::v;
    }
    void mutate(u32, u32, std::false_type) {}
    virtual void kind_op(int k, u32 a, u32 b) { if (MUT && b % 5 == 0) mutate(a, b / 5, std::integral_constant<bool, MUT>()); else K::kind_op(k, a, b); }
};

// ---------------------------------------------------------------- the default orders, on values and on pointers the simulated heap hands out
template <class T, bool ARITH> struct PoolOf {   // values of a type together with their place in its order
    static T mk(int v, void *const *) { return Val<T>::mk(v); }
    static long double rank(const T &, int v) { return v; }
};
template <class T> struct PoolOf<T, true> {      // the far ends of the type, the middle, fractions, and anything between
    static T mk(int v, void *const *) {
        typedef std::numeric_limits<T> L; const T lo = std::is_floating_point<T>::value ? (T)-L::max() : L::min(), hi = L::max(); u32 h = (u32)v * 2654435761u;
        switch (v % 16) {
        case 0: return T(0); case 1: return lo; case 2: return hi; case 3: return (T)(lo + 1); case 4: return (T)(hi - 1); case 5: return (T)(lo / 2); case 6: return (T)(hi / 2); case 7: return (T)(hi / 2 + 1); case 8: return T(1); case 9: return (T)-1;
        case 10: return std::is_floating_point<T>::value ? (T)0.25 : (T)2; case 11: return std::is_floating_point<T>::value ? L::infinity() : (T)100; case 12: return std::is_floating_point<T>::value ? (T)-L::denorm_min() : (T)-100; case 13: return std::is_floating_point<T>::value ? -L::infinity() : (T)((unsigned long long)h << 31 | h);
        case 14: return (T)(v / 16 % 7); default: return std::is_floating_point<T>::value ? (T)((int)(h >> 8) - (1 << 23)) / 8 : (T)h; }
    }
    static long double rank(const T &t, int) { return t; }
};
template <class T> struct Pool : PoolOf<T, std::is_arithmetic<T>::value> {};
template <class X> struct Pool<X *> {   // null, into blocks the simulated heap handed out, other places of the address space
    static X *mk(int v, void *const *blocks) {
        if (v % 5 == 0) return (X *)0;
        if (v % 5 == 1) { static const u64 far[] = {8, 0x1000, 0x7ffffff8, 0x80000000, 0xfffffff8, 0x100000000, 0x100000008, 0x7fffffffe000, 0x7ffff7a00000, 0x555555554000, 0x8000000000000000, 0xfffffffffffffff8}; return (X *)far[v / 5 % 12]; }
        return (X *)((char *)blocks[v % 8] + (v / 8 % 4) * 8);
    }
    static long double rank(X *p, int) { return (u64)p; }
};
struct OrderObj { int n; OrderObj() : n(0) {} };
template <class T, int DOM> struct KOrder : KBase<KOrder<T, DOM>, OrderObj, Seq> {
    typedef OrderObj C; typedef KBase<KOrder, C, Seq> B; using B::m; using B::c; using B::cc;
    void *blocks[8]; size_t bsz[8]; Seq seen;
    KOrder() { for (int i = 0; i < 8; i++) blocks[i] = 0; }
    static Seq fresh(int) { return Seq(); }
    static size_t model_size(const Seq &s) { return s.size(); }
    void create() { B::create(); for (int i = 0; i < 8; i++) get(i, 40); }
    void get(int i, size_t z) { bsz[i] = z < 32 ? 32 : z; blocks[i] = heap_alloc(DOM, (long)bsz[i]); }
    void drop(int i) { heap_free(DOM, blocks[i], (long)bsz[i]); }
    void destroy() { for (int i = 0; i < 8; i++) drop(i); B::destroy(); }
    void do_clear() { m.clear(); }
    void generic(int g, u32, u32, Obj *) { if (g == G_RECREATE) { destroy(); this->create(); } else if (g == G_CLEAR) do_clear(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"compare", 30}, {"replace_block", 6}, {"push_value", 10}, {"pop_value", 6}}; n = sizeof t / sizeof *t; return t; }
    // every pair of the kept values: does each order say what the values' ranks say
    template <class CC> void obs(CC &, Obs &o) { for (size_t i = 0; i < m.size() && i < 12; i++) for (size_t j = 0; j < m.size() && j < 12; j++) o.put(ask(m[i], m[j])); o.put(MK_END); }
    void mobs(const Seq &s, Obs &o) { for (size_t i = 0; i < s.size() && i < 12; i++) for (size_t j = 0; j < s.size() && j < 12; j++) o.put(truth(s[i], s[j])); o.put(MK_END); }
    int ask(int x, int y) const {
        const dstruct::less<T> l = dstruct::less<T>(); const dstruct::greater<T> g = dstruct::greater<T>(); T a = Pool<T>::mk(x, blocks), b = Pool<T>::mk(y, blocks);
        int r = 0; r |= l(a, b) ? 1 : 0; r |= l(b, a) ? 2 : 0; r |= g(a, b) ? 4 : 0; r |= g(b, a) ? 8 : 0; r |= l(a, a) || g(b, b) ? 16 : 0; return r;
    }
    int truth(int x, int y) { T a = Pool<T>::mk(x, blocks), b = Pool<T>::mk(y, blocks); long double p = Pool<T>::rank(a, x), q = Pool<T>::rank(b, y); return (p < q ? 1 : 0) | (q < p ? 2 : 0) | (p > q ? 4 : 0) | (q > p ? 8 : 0); }
    void check(int x, int y) { int r; { LibScope ls; r = ask(x, y); } int e = truth(x, y); log_u64((u64)r); if (this->judge_model && r != e) fail("order", "%s: of values %d and %d, less is %d/%d and greater %d/%d%s, expected %d/%d and %d/%d", this->ki->name, x, y, r & 1, r >> 1 & 1, r >> 2 & 1, r >> 3 & 1, r & 16 ? " (and one is before itself)" : "", e & 1, e >> 1 & 1, e >> 2 & 1, e >> 3 & 1); }
    void kop(int k, u32 a, u32 b) {
        if (m.size() >= 12 && k == 2) k = 3;
        if (m.empty() && k == 3) k = 2;
        switch (k) {
        case 0: for (u32 i = 0; i < 6; i++) { int x = (int)((a >> i) % 240), y = (int)((b >> i) % 240); check(x, y); check(x, 0); if (!m.empty()) check(x, m[b % m.size()]); } break;
        case 1: { int i = (int)(a % 8); drop(i); get(i, b % 300); break; }
        case 2: m.push_back((int)(a % 240)); break;
        case 3: m.erase(m.begin() + (long)(b % m.size())); break;
        }
    }
};
}
#endif
