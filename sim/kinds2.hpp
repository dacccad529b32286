// Container kinds, second part: linked lists, extreme stacks, heap, trees, map, union-find, string.
#ifndef SIM_KINDS2_HPP
#define SIM_KINDS2_HPP
#include "kinds.hpp"

namespace sim {
// ---------------------------------------------------------------- handles to elements (property C24)
template <class It> struct Handles {
    struct H { const void *addr; It it; };
    std::map<int, H> h;
};

// ---------------------------------------------------------------- linked lists
template <class C, class T, bool DOUBLY> struct KList : KBase<KList<C, T, DOUBLY>, C, Seq> {
    typedef KBase<KList<C, T, DOUBLY>, C, Seq> B; using B::m; using B::c; using B::mem;
    typedef std::integral_constant<bool, DOUBLY> Dbl;
    typedef typename C::IteratorType It;
    Handles<It> hs;
    static Seq fresh(int) { return Seq(); }
    static size_t model_size(const Seq &s) { return s.size(); }
    static const OpInfo *ops(int &n) {
        static const OpInfo t[] = {{"push_back", 18}, {"push_front", 14}, {"push", 6}, {"pop_front", 12}, {"pop", 5}, {"pop_back", 10}, {"write_iter", 3}, {"push_own", 3}, {"bulk_push_back", 4}, {"bulk_push_front", 3}, {"bulk_pop", 5}, {"slide", 3}, {"construct_fill", 2}};
        n = sizeof t / sizeof *t; return t;
    }
    template <class CC> static void back(CC &, Obs &, size_t, std::false_type) {}
    template <class CC> static void back(CC &x, Obs &o, size_t n, std::true_type) { obs_backward(x, o, n); obs_backward_post(x, o, n); }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); if (n > (1u << 24)) return;
        obs_forward(x, o, n);
        if (this->light == 0 || n < 24) { obs_forward_post(x, o, n); back(x, o, n, Dbl()); }
        if (n) { o.put(vo(x.front())); o.put(vo(x.back())); } o.put(MK_END);
    }
    void mobs(const Seq &s, Obs &o) {
        size_t n = s.size(); o.put((i64)n); o.put(s.empty());
        mobs_forward(s, o);
        if (this->light == 0 || n < 24) { mobs_forward(s, o); if (DOUBLY) { mobs_backward(s, o); mobs_backward(s, o); } }
        if (n) { o.put(s.front()); o.put(s.back()); } o.put(MK_END);
    }
    void popb(std::true_type) { LIB(c()->pop_back()); }
    void popb(std::false_type) { LIB(c()->_pop_back()); }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.size();
        if (n >= (size_t)this->cap && (k <= 2 || k == 7 || k == 8 || k == 9)) k = 10;
        if (!n && ((k >= 3 && k <= 7) || k == 10)) k = k & 1;
        switch (k) {
        case 0: { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push_back(v)); m.push_back(w); break; }
        case 1: { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push_front(v)); m.insert(m.begin(), w); break; }
        case 2: { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push(v)); m.insert(m.begin(), w); break; }
        case 3: LIB(c()->pop_front()); hs.h.erase(m.front()); m.erase(m.begin()); break;
        case 4: LIB(c()->pop()); hs.h.erase(m.front()); m.erase(m.begin()); break;
        case 5: popb(Dbl()); hs.h.erase(m.back()); m.pop_back(); break;
        case 6: { int d = (int)(a % 5), sk = (int)(b % 3); size_t i = 0; { LibScope ls; for (auto it = c()->begin(); it != c()->end(); ++it, i++) { if (sk && i % 3 == (size_t)sk) continue; *it = Val<T>::mk((vo(*it) + d) % (int)MaxVal<T>::v); if (i < m.size()) m[i] = (m[i] + d) % (int)MaxVal<T>::v; if (i > n + 8) break; } } for (int v : m) if (v > (int)this->next_val) this->next_val = (u32)v; drop_handles(); break; }
        case 7: { size_t i = b % n; count(F_ALIASED_ARG); It it = c()->begin(); { LibScope ls; for (size_t j = 0; j < i; j++) ++it; if (a & 1) c()->push_back(*it); else c()->push_front(*it); } int w = m[i]; if (a & 1) m.push_back(w); else m.insert(m.begin(), w); drop_handles(); break; }
        case 8: case 9: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.size() < (size_t)this->cap; i++) kop(k - 8, a + i * 7, b); break; }
        case 10: { u32 x = 1 + b % (u32)this->bulk; bool f = !DOUBLY || (a & 1); for (u32 i = 0; i < x && !m.empty(); i++) kop(f ? 3 : 5, a, b); break; }
        case 11: { u32 x = 1 + b % (u32)(2 * this->bulk); bool f = !DOUBLY || (a & 1); for (u32 i = 0; i < x; i++) { kop(f ? 0 : 1, a + i, b); if (m.size() > 1 + (a >> 1) % 3) kop(f ? 3 : 5, a, b); } break; }
        case 12: { size_t x = b % 7; T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); B::destroy(); LIB(new (mem) C(x, v)); this->alive = true; m.assign(x, w); drop_handles(); break; }
        }
    }
    // iterators and addresses of surviving elements
    void drop_handles() { hs.h.clear(); }
    void contents_replaced() { drop_handles(); }
    void contents_moved_from(Obj *p) { auto *q = static_cast<KList *>(p); hs.h.swap(q->hs.h); q->hs.h.clear(); }
    void handles_check(const char *when) {
        std::set<int> dup; for (int v : m) if (!dup.insert(v).second) { drop_handles(); return; }
        typedef typename Handles<It>::H H;
        for (size_t i = 0; i < m.size(); i++) {
            auto f = hs.h.find(m[i]); if (f == hs.h.end()) continue;
            int byptr = vo(*(const T *)f->second.addr), byit; const void *ad; { LibScope ls; It it = f->second.it; byit = vo(*it); ad = &*it; }
            if (byptr != m[i] || byit != m[i] || ad != f->second.addr) fail("handle", "%s: after %s a pointer or iterator to element %d denotes %d / %d", this->ki->name, when, m[i], byptr, byit);
            auto g = i + 1 < m.size() ? hs.h.find(m[i + 1]) : hs.h.end();
            { LibScope ls; It it = f->second.it; ++it; if (g != hs.h.end() && !(it == g->second.it)) fail("handle", "%s: after %s the iterator to %d does not advance to %d", this->ki->name, when, m[i], m[i + 1]); if (i + 1 == m.size() && it != c()->end()) fail("handle", "%s: after %s the iterator to the last element does not advance to end", this->ki->name, when); }
            count(P_HANDLE_SURVIVED);
        }
        std::map<int, H> nh; size_t lim = m.size() + 4;
        { LibScope ls; It e = c()->end(); for (It it = c()->begin(); it != e && lim--; ++it) { bool l = g_in_lib; g_in_lib = false; int v = vo(*it); auto f = hs.h.find(v); H h = {f != hs.h.end() ? f->second.addr : (const void *)&*it, f != hs.h.end() ? f->second.it : it}; nh.insert(std::make_pair(v, h)); g_in_lib = l; } }
        hs.h.swap(nh);
    }
};

// ---------------------------------------------------------------- comparator-ordered models
struct OrdSeq { int dir; Seq v; mutable Seq x; OrdSeq() : dir(1) {} };   // x: the extremes of v's prefixes, as far as they were needed

// ---------------------------------------------------------------- MinStack / MaxStack / XValueStack
template <class C, class T, class CMP> struct KXStack : KBase<KXStack<C, T, CMP>, C, OrdSeq> {
    typedef KBase<KXStack<C, T, CMP>, C, OrdSeq> B; using B::m; using B::c;
    typedef std::integral_constant<bool, Stateful<CMP>::v> St;
    static void cons(void *mem, int var, std::true_type) { new (mem) C(CmpDir<CMP, T>::mk(var)); }
    static void cons(void *mem, int, std::false_type) { new (mem) C(); }
    static void construct(void *mem, int var) { cons(mem, var, St()); }
    static OrdSeq fresh(int var) { OrdSeq o; o.dir = CmpDir<CMP, T>::of(var); return o; }
    int cmp_variant() { return m.dir == 1 ? 0 : 1; }
    static OrdSeq moved(const OrdSeq &s) { OrdSeq o; o.dir = s.dir; return o; }
    static OrdSeq cleared(const OrdSeq &s) { return moved(s); }
    static size_t model_size(const OrdSeq &s) { return s.v.size(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"push", 26}, {"push_current_extreme", 8}, {"pop", 24}, {"bulk_push", 5}, {"bulk_pop", 5}, {"drain", 1}, {"ramp", 3}, {"push_own", 3}}; n = sizeof t / sizeof *t; return t; }
    template <class CC> void obs(CC &x, Obs &o) {
        bool e = x.empty(); o.put(e); obs_forward(x, o, this->m.v.size() + 8);
        if (!e) { o.put(vo(x.top())); int xv = vo(x.getXValue()); if (CmpKey<CMP>::ties) xv = member(x, xv) ? CmpKey<CMP>::of(xv) : MK_RUNAWAY; o.put(xv); } o.put(MK_END);
    }
    // among equivalent elements any may be the extreme, as long as it is one of the elements
    template <class CC> static bool member(CC &x, int v) { size_t k = 0; for (auto it = x.begin(); it != x.end() && k++ < (1u << 20); ++it) if (vo(*it) == v) return true; return false; }
    static int key(int v) { return CmpKey<CMP>::of(v); }
    static int extreme(const OrdSeq &s) { for (size_t i = s.x.size(); i < s.v.size(); i++) s.x.push_back(!i ? s.v[0] : (s.dir == 1 ? key(s.v[i]) < key(s.x[i - 1]) : key(s.x[i - 1]) < key(s.v[i])) ? s.v[i] : s.x[i - 1]); return s.x[s.v.size() - 1]; }
    void mobs(const OrdSeq &s, Obs &o) { o.put(s.v.empty()); mobs_forward(s.v, o); if (!s.v.empty()) { o.put(s.v.back()); o.put(key(extreme(s))); } o.put(MK_END); }
    void pushv(int x) { T v = Val<T>::mk(x); int w = vo(v); LIB(c()->push(v)); m.v.push_back(w); }
    void pop1() {
        int got, x; { LibScope ls; got = vo(c()->top()); x = vo(c()->getXValue()); c()->pop(); }
        if (this->judge_model && (got != m.v.back() || key(x) != key(extreme(m)))) fail("order", "%s delivered %d with extreme %d, expected %d with extreme %d", this->ki->name, got, x, m.v.back(), extreme(m));
        log_u64((u64)got); log_u64((u64)x); m.v.pop_back(); if (m.x.size() > m.v.size()) m.x.resize(m.v.size());
    }
    void kop(int k, u32 a, u32 b) {
        if (m.v.size() >= (size_t)this->cap && (k == 0 || k == 1 || k == 3 || k == 6 || k == 7)) k = 4;
        if (m.v.empty() && (k == 1 || k == 2 || k == 4 || k == 5 || k == 7)) k = 0;
        switch (k) {
        case 0: pushv(NEWVAL(a)); break;
        case 1: count(P_DUPLICATE); pushv(extreme(m)); break;
        case 2: pop1(); break;
        case 3: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.v.size() < (size_t)this->cap; i++) pushv(NEWVAL(a + i * 5)); break; }
        case 4: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.v.empty(); i++) pop1(); break; }
        case 5: while (!m.v.empty()) pop1(); break;
        case 6: { u32 x = 1 + b % (u32)this->bulk; int d = this->domain ? this->domain : 30000, base = (1000 + (int)(a % 50)) % d; for (u32 i = 0; i < x && m.v.size() < (size_t)this->cap; i++) pushv(((a & 64 ? base - (int)i / 2 : base + (int)i / 2) % d + d) % d); break; }
        case 7: { size_t i = b % m.v.size(); count(F_ALIASED_ARG); { LibScope ls; auto it = c()->begin(); for (size_t j = 0; j < i; j++) ++it; c()->push(*it); } int w = m.v[i]; m.v.push_back(w); break; }
        }
    }
};

// ---------------------------------------------------------------- Heap / PriorityQueue
template <class C, class T, class CMP> struct KHeap : KBase<KHeap<C, T, CMP>, C, OrdSeq> {
    typedef KBase<KHeap<C, T, CMP>, C, OrdSeq> B; using B::m; using B::c; using B::mem;
    typedef std::integral_constant<bool, Stateful<CMP>::v> St;
    static void cons(void *mem, int var, std::true_type) { if (var & 2) new (mem) C(CmpDir<CMP, T>::mk(var), Val<T>::mk(var & 4 ? 0 : 100)); else new (mem) C(CmpDir<CMP, T>::mk(var)); }
    static void cons(void *mem, int var, std::false_type) { if (var & 2) new (mem) C(CMP(), Val<T>::mk(var & 4 ? 0 : 100)); else new (mem) C(); }
    static void construct(void *mem, int var) { cons(mem, var, St()); }
    static OrdSeq fresh(int var) { OrdSeq o; o.dir = CmpDir<CMP, T>::of(var); return o; }
    int cmp_variant() { return m.dir == 1 ? 0 : 1; }
    static OrdSeq moved(const OrdSeq &s) { OrdSeq o; o.dir = s.dir; return o; }
    static size_t model_size(const OrdSeq &s) { return s.v.size(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"push", 28}, {"pop", 22}, {"push_own", 3}, {"bulk_push", 6}, {"bulk_pop", 6}, {"drain", 1}, {"construct_range", 2}, {"sort", 3}, {"build", 3}}; n = sizeof t / sizeof *t; return t; }
    bool before(int a, int b) const { return m.dir == 1 ? a < b : b < a; }
    void do_clear() { while (!m.v.empty()) pop1(); }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); o.put(x.capacity() >= x.size()); if (n > (1u << 24)) return;
        Seq s; size_t k = 0;
        for (auto it = x.begin(); it != x.end(); ++it) { int v = vo(*it); bool l = g_in_lib; g_in_lib = false; s.push_back(v); g_in_lib = l; if (k++ > n + 64) break; }
        { bool l = g_in_lib; g_in_lib = false; std::sort(s.begin(), s.end()); g_in_lib = l; }
        for (int v : s) o.put(v);
        if (n) { int tv = vo(x.top()); if (CmpKey<CMP>::ties) { bool l = g_in_lib; g_in_lib = false; tv = std::binary_search(s.begin(), s.end(), tv) ? key(tv) : MK_RUNAWAY; g_in_lib = l; } o.put(tv); } idx(x, n, o, 0); o.put(MK_END);
    }
    // operator[] (positions from 1) reads the same elements as the iterators; it is not const
    template <class CC> auto idx(CC &x, size_t n, Obs &o, int) -> decltype((void)x[1]) { size_t i = 1; for (auto it = x.begin(); it != x.end() && i <= n; ++it, ++i) if (!(vo(x[(int)i]) == vo(*it))) { o.put(MK_RUNAWAY); break; } if (n && vo(x[1]) != vo(x.top())) o.put(MK_RUNAWAY); }
    template <class CC> void idx(CC &, size_t, Obs &, long) {}
    // the model's sequence is a heap of its own
    static int key(int v) { return CmpKey<CMP>::of(v); }
    struct After { int dir; bool operator()(int a, int b) const { return dir == 1 ? key(b) < key(a) : key(a) < key(b); } };
    static int top_of(const OrdSeq &s) { return s.v.front(); }
    void pushm(int w) { After f = {m.dir}; m.v.push_back(w); std::push_heap(m.v.begin(), m.v.end(), f); }
    // among equivalent elements the heap decides which one goes
    bool select(int got) { if (!CmpKey<CMP>::ties || got == m.v[0] || key(got) != key(m.v[0])) return got == m.v[0]; auto i = std::find(m.v.begin(), m.v.end(), got); if (i == m.v.end()) return false; std::swap(*i, m.v[0]); return true; }
    void popm() { After f = {m.dir}; std::pop_heap(m.v.begin(), m.v.end(), f); m.v.pop_back(); }
    void mobs(const OrdSeq &s, Obs &o) { o.put((i64)s.v.size()); o.put(s.v.empty()); o.put(1); Seq q = s.v; std::sort(q.begin(), q.end()); for (int v : q) o.put(v); if (!q.empty()) o.put(key(top_of(s))); o.put(MK_END); }
    void pushv(int x) { T v = Val<T>::mk(x); int w = vo(v); LIB(c()->push(v)); pushm(w); }
    void pop1() {
        int got; { LibScope ls; got = vo(c()->top()); c()->pop(); }
        bool ok = select(got); int e = top_of(m);
        if (this->judge_model && !ok) fail("order", "%s delivered %d, but %d precedes it", this->ki->name, got, e);
        log_u64((u64)got); popm();
    }
    // static sort and build over a range the simulator owns
    void range_op(int k, u32 a, u32 b) {
        if (Stateful<CMP>::v) return;
        size_t n = 1 + b % (u32)std::min(2 * this->bulk, 50000); Rng r(a + 77);
        int dom = 1 + (int)r.below(40); if (this->domain) dom = std::min(dom, this->domain); if (n == 1 && (a & 1)) n = 0;
        Atomic *at = 0; (void)at;
        T *buf = static_cast<T *>(::operator new(sizeof(T) * (n + 1)));
        Seq in; for (size_t i = 0; i < n; i++) { int v = (int)r.below((u32)dom); new (buf + i) T(Val<T>::mk(v)); in.push_back(v); }
        typename C::IteratorType bg(buf), en(buf + n);
        Seq kept; if (k == 7) { LIB(C::sort(bg, en)); } else { LibScope ls; C h(C::build(bg, en)); size_t lim = n + 8; while (!h.empty() && lim--) { int v = vo(h.top()); h.pop(); bool l = g_in_lib; g_in_lib = false; kept.push_back(v); g_in_lib = l; } }
        Seq out; for (size_t i = 0; i < n; i++) { out.push_back(vo(buf[i])); log_u64((u64)out.back()); }
        for (size_t i = 0; i < n; i++) buf[i].~T();
        ::operator delete(buf);
        if (!this->judge_model) return;
        int dir = CmpDir<CMP, T>::of(this->variant);
        Seq s1 = in, s2 = out; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
        if (k == 8) { Seq e = s1; if (dir != 1) std::reverse(e.begin(), e.end()); Seq ks = kept; std::sort(ks.begin(), ks.end()); bool perm = ks == s1; for (int &v : kept) v = key(v); for (int &v : e) v = key(v); if (kept != e || !perm) { Obs x, y; for (int v : kept) x.put(v); for (int v : e) y.put(v); fail("range", "%s build: the heap it returns yields %s, expected %s", this->ki->name, x.str().c_str(), y.str().c_str()); } }
        if (s1 != s2) fail("range", "%s %s: the range is not a permutation of what it was", this->ki->name, k == 7 ? "sort" : "build");
        for (size_t i = 1; i < n; i++) {
            size_t p = k == 7 ? i - 1 : (i + 1) / 2 - 1;
            bool bad = dir == 1 ? key(out[i]) < key(out[p]) : key(out[p]) < key(out[i]);
            if (bad) fail("range", "%s %s: position %zu holds %d after %d", this->ki->name, k == 7 ? "sort" : "build", i, out[i], out[p]);
        }
    }
    void kop(int k, u32 a, u32 b) {
        if (m.v.size() >= (size_t)this->cap && (k == 0 || k == 2 || k == 3)) k = 4;
        if (m.v.empty() && (k == 1 || k == 2 || k == 4 || k == 5)) k = 0;
        switch (k) {
        case 0: pushv(NEWVAL(a)); break;
        case 1: pop1(); break;
        case 2: { count(F_ALIASED_ARG); int w; { LibScope ls; auto it = c()->begin(); w = vo(*it); c()->push(*it); } if (this->judge_model && !select(w)) fail("order", "%s: the first element is %d, but %d precedes it", this->ki->name, w, top_of(m)); pushm(w); break; }
        case 3: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.v.size() < (size_t)this->cap; i++) pushv(NEWVAL(a + i * 5)); break; }
        case 4: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.v.empty(); i++) pop1(); break; }
        case 5: while (!m.v.empty()) pop1(); break;
        case 6: {
            if (Stateful<CMP>::v) return;
            size_t n = b % (u32)(this->bulk + 1); T *buf = static_cast<T *>(::operator new(sizeof(T) * (n + 1))); Seq in;
            for (size_t i = 0; i < n; i++) { T v = Val<T>::mk(NEWVAL(a + (u32)i * 13)); in.push_back(vo(v)); new (buf + i) T(v); }
            B::destroy(); typename C::IteratorType bg(buf), en(buf + n); LIB(new (mem) C(bg, en)); this->alive = true; m = fresh(this->variant); for (int w : in) pushm(w);
            for (size_t i = 0; i < n; i++) buf[i].~T();
            ::operator delete(buf);
            break; }
        case 7: case 8: range_op(k, a, b); break;
        }
    }
};

// ---------------------------------------------------------------- trees
struct Shape {   // the unique binary search tree with a given pre-order visit
    bool ok; Seq post; int height; bool balanced; std::map<int, int> nchild; std::map<int, int> h;
    Seq pre; size_t i; int dir;
    bool lt(int a, int b) const { return dir == 1 ? a < b : b < a; }
    struct Fr { int v; int stage; int hl, hr; };
    explicit Shape(const Seq &p, int d) : ok(true), height(0), balanced(true), pre(p), i(0), dir(d) { build(); }
    void build() {
        // iterative: stack of open nodes
        size_t n = pre.size(); std::vector<int> L(n, -1), R(n, -1), stack;
        bool haslow = false; int low = 0;
        for (size_t k = 0; k < n; k++) {
            if (haslow && !lt(low, pre[k])) { ok = false; return; }
            int last = -1;
            while (!stack.empty() && lt(pre[stack.back()], pre[k])) { last = stack.back(); haslow = true; low = pre[last]; stack.pop_back(); }
            if (last >= 0) R[last] = (int)k; else if (!stack.empty()) { if (!lt(pre[k], pre[stack.back()])) { ok = false; return; } L[stack.back()] = (int)k; }
            stack.push_back((int)k);
        }
        std::vector<int> H(n, 0);
        for (size_t k = n; k-- > 0;) {
            int a = L[k] >= 0 ? H[L[k]] : 0, b = R[k] >= 0 ? H[R[k]] : 0;
            H[k] = 1 + std::max(a, b); if (a - b > 1 || b - a > 1) balanced = false;
            nchild[pre[k]] = (L[k] >= 0) + (R[k] >= 0); h[pre[k]] = H[k];
        }
        height = n ? H[0] : 0;
        // post-order: reverse of (node, right, left) pre-order
        if (n) { std::vector<int> st(1, 0); while (!st.empty()) { int k = st.back(); st.pop_back(); post.push_back(pre[k]); if (L[k] >= 0) st.push_back(L[k]); if (R[k] >= 0) st.push_back(R[k]); } std::reverse(post.begin(), post.end()); }
    }
};
template <class X> inline auto dataval(const X &x, int) -> decltype(vo(x.val)) { return vo(x.val); }
template <class X> inline int dataval(const X &x, long) { return vo(x); }
inline int dataval(const int &x, int) { return vo(x); }
template <int P, int K> inline int dataval(const Elem<P, K> &x, int) { return vo(x); }
struct PushCb { Seq *s; size_t lim; template <class X> void operator()(X &x) { CallbackScope cs; int v = dataval(x, 0); bool l = g_in_lib; g_in_lib = false; if (s->size() < lim) s->push_back(v); g_in_lib = l; } };

template <class C, class T> inline void iter_seq(const C &x, typename C::TraversalType tt, Seq &s, size_t lim) {
    for (auto it = x.begin(tt), e = x.end(tt); it != e; ++it) { int v = vo(*it); bool l = g_in_lib; g_in_lib = false; s.push_back(v); g_in_lib = l; if (s.size() > lim) break; }
}
inline int key_of(int v) { return v; }
inline int key_of(const std::pair<const int, int> &e) { return e.first; }
// the member after x in the container's order, if there is one
template <class S> inline bool next_in(const S &s, int x, int dir, int &next) {
    if (dir == 1) { auto i = s.upper_bound(x); if (i == s.end()) return false; next = key_of(*i); return true; }
    auto i = s.lower_bound(x); if (i == s.begin()) return false; next = key_of(*--i); return true;
}
// BSTree and AVLTree
struct SetM { int dir; std::set<int> s; SetM() : dir(1) {} };
template <class C, class T, class CMP, bool AVL> struct KTree : KBase<KTree<C, T, CMP, AVL>, C, SetM> {
    typedef KBase<KTree<C, T, CMP, AVL>, C, SetM> B; using B::m; using B::c; using B::cc; using B::mem;
    typedef std::integral_constant<bool, AVL> IsAvl;
    typedef typename C::ConstIteratorType It; typedef typename C::TraversalType TT;
    Handles<It> hs;
    static T mark(int v) { return marked(Val<T>::mk(v)); }
    static void construct(void *mem, int var) { new (mem) C(CmpDir<CMP, T>::mk(var)); }
    static SetM fresh(int var) { SetM o; o.dir = CmpDir<CMP, T>::of(var); return o; }
    int cmp_variant() { return m.dir == 1 ? 0 : 1; }
    static SetM moved(const SetM &s) { SetM o; o.dir = s.dir; return o; }
    static SetM cleared(const SetM &s) { return moved(s); }
    static size_t model_size(const SetM &s) { return s.s.size(); }
    Seq sorted() const { Seq v(m.s.begin(), m.s.end()); if (m.dir != 1) std::reverse(v.begin(), v.end()); return v; }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"push", 26}, {"push_run", 4}, {"pop", 18}, {"pop_absent", 3}, {"push_present", 4}, {"erase", 10}, {"erase_loop", 3}, {"bulk_push", 5}, {"bulk_pop", 5}, {"pop_root", 5}, {"construct_range", 2}, {"drain", 1}, {"slide", 2}, {"pop_own", 4}, {"push_own", 2}}; n = sizeof t / sizeof *t; return t; }
    int dom() const { return this->domain ? this->domain : 64; }
    static int probe_step(int d) { return d <= 24 ? 1 : d / 17 + 1; }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); if (n > (1u << 24)) return;
        if (n & 1) obs_forward(x, o, n); else obs_forward_post(x, o, n);
        if (this->light == 0 || n < 24) {
            Seq s; PushCb cb = {&s, n + 64}; x.traversal(cb); o.put(MK_TRAV); for (int v : s) o.put(v);
            for (int v = 0; v < dom(); v += probe_step(dom())) { T t = mark(v); auto it = x.find(t); bool found = it != x.end(); o.put(found); if (found) o.put(vo(*it)); }
        }
        o.put(MK_END);
    }
    template <class CC> void robs(CC &x, u32 a, Obs &o) {
        size_t n = (size_t)x.size(); TT tt = a % 3 == 0 ? C::TraversalType::PreOrder : a % 3 == 1 ? C::TraversalType::InOrder : C::TraversalType::PostOrder;
        Seq s; if (a & 8) { PushCb cb = {&s, n + 64}; x.traversal(cb, tt); } else iter_seq<C, T>(x, tt, s, n + 64);
        for (int v : s) o.put(v);
        for (int i = 0; i < 4; i++) { T t = mark((int)((a >> 4) + (u32)i * 5) % dom()); auto it = x.find(t); bool found = it != x.end(); o.put(found); if (found) o.put(vo(*it)); }
    }
    void mobs(const SetM &s, Obs &o) {
        Seq v(s.s.begin(), s.s.end()); if (s.dir != 1) std::reverse(v.begin(), v.end());
        size_t n = v.size(); o.put((i64)n); o.put(v.empty()); mobs_forward(v, o);
        if (this->light == 0 || n < 24) {
            o.put(MK_TRAV); for (int x : v) o.put(x);
            for (int x = 0; x < dom(); x += probe_step(dom())) { bool f = s.s.count(x) != 0; o.put(f); if (f) o.put(x); }
        }
        o.put(MK_END);
    }
    Seq preorder() { Seq s; LibScope ls; iter_seq<C, T>(*cc(), C::TraversalType::PreOrder, s, m.s.size() + 64); return s; }
    void extra_height(const Shape &sh_, std::true_type) {
        int h; { LibScope ls; h = cc()->height(); }
        if (!sh_.balanced) fail("balance", "%s: a node's subtrees differ in height by more than one (%zu elements, height %d)", this->ki->name, m.s.size(), sh_.height);
        if (h != sh_.height) fail("height", "%s: reported height %d, true height %d (%zu elements)", this->ki->name, h, sh_.height, m.s.size());
    }
    void extra_height(const Shape &, std::false_type) {}
    void extra_check() {
        size_t lim = m.s.size() + 64; Seq pi = preorder(), pt, qi, qt;
        { LibScope ls; PushCb a = {&pt, lim}; cc()->traversal(a, C::TraversalType::PreOrder); iter_seq<C, T>(*cc(), C::TraversalType::PostOrder, qi, lim); PushCb b = {&qt, lim}; cc()->traversal(b, C::TraversalType::PostOrder); }
        if (pi.size() != m.s.size() || std::set<int>(pi.begin(), pi.end()) != m.s) { Obs o; for (int v : pi) o.put(v); fail("preorder", "%s: pre-order iteration visits %s (%zu members)", this->ki->name, o.str().c_str(), m.s.size()); }
        Shape s(pi, m.dir);
        if (!s.ok) { Obs o; for (int v : pi) o.put(v); fail("preorder", "%s: pre-order iteration %s is no pre-order of a search tree", this->ki->name, o.str().c_str()); }
        if (pt != pi) fail("preorder", "%s: pre-order traversal and iteration disagree", this->ki->name);
        if (qi != s.post) { Obs o, e; for (int v : qi) o.put(v); for (int v : s.post) e.put(v); fail("postorder", "%s: post-order iteration visits %s, the tree is %s", this->ki->name, o.str().c_str(), e.str().c_str()); }
        if (qt != s.post) fail("postorder", "%s: post-order traversal and iteration disagree", this->ki->name);
        u64 hs_ = 3; for (auto &e : s.h) hs_ = mix(hs_, (u64)e.second); state(hs_);
        extra_height(s, IsAvl());
    }
    void pushv(int x) { T v = Val<T>::mk(x); LIB(c()->push(v)); m.s.insert(x); }
    int absent(u32 a) { int d = dom(); for (int i = 0; i < d; i++) { int v = (int)((a + (u32)i) % (u32)d); if (!m.s.count(v)) return v; } return -1; }
    int present(u32 a) { auto it = m.s.lower_bound((int)(a % (u32)dom())); if (it == m.s.end() || (a >> 24) % 8 == 3) it = m.s.begin(); else if ((a >> 24) % 8 == 5) it = --m.s.end(); return *it; }
    void note_removal(int v) {
        bool two = false;
        if (!this->light || m.s.size() < 64 || this->judge_handles) { Shape s(preorder(), m.dir); two = s.ok && s.nchild.count(v) && s.nchild[v] == 2; if (two) count(P_TWO_CHILDREN); if (!s.pre.empty() && s.pre[0] == v) count(P_ROOT_REMOVED); }
        if (!AVL && two) hs.h.clear(); else hs.h.erase(v);
    }
    void popv(int x) { note_removal(x); T v = mark(x); LIB(c()->pop(v)); m.s.erase(x); }
    void erasev(int x) {
        note_removal(x);
        int next = 0; bool last = !next_in(m.s, x, m.dir, next), isend; int got = 0, before;
        T v = mark(x);
        { LibScope ls; It it = c()->find(v); if (!(it != c()->end())) { bool l = g_in_lib; g_in_lib = false; if (this->judge_model) fail("lookup", "%s: member %d is not found", this->ki->name, x); m.s.erase(x); g_in_lib = l; return; } before = vo(*it); It nx = c()->erase(it); isend = !(nx != c()->end()); if (!isend) got = vo(*nx); }
        (void)before; m.s.erase(x);
        if (this->judge_handles || this->judge_model) { if (last != isend) fail("erase-next", "%s: erase of %d returned %s", this->ki->name, x, isend ? "end, but elements follow" : "an element, but none follows"); if (!isend && got != next) fail("erase-next", "%s: erase of %d returned an iterator to %d, the next element is %d", this->ki->name, x, got, next); }
        log_u64(isend ? 1 : (u64)got);
    }
    void erase_loop(u32 a) {
        count(F_ERASE_IN_LOOP);
        Seq order = sorted(), seen; std::set<int> gone; u32 mod = 2 + a % 4, rem = (a >> 4) % mod; if ((a >> 10) % 4 == 0) mod = 1, rem = 0;
        if (!AVL) hs.h.clear();
        { LibScope ls; size_t lim = order.size() + 16; u32 i = 0;
          for (It it = c()->begin(); it != c()->end() && lim--; i++) {
              int v = vo(*it); bool l = g_in_lib; g_in_lib = false; seen.push_back(v); bool del = i % mod == rem; if (del) gone.insert(v); g_in_lib = l;
              if (del) it = c()->erase(it); else ++it;
          } }
        if ((this->judge_handles || this->judge_model) && seen != order) { Obs o, e; for (int v : seen) o.put(v); for (int v : order) e.put(v); fail("erase-loop", "%s: a loop that erases while iterating met %s, the elements were %s", this->ki->name, o.str().c_str(), e.str().c_str()); }
        for (u32 i = 0; i < order.size(); i++) if (i % mod == rem) { m.s.erase(order[i]); hs.h.erase(order[i]); }
    }
    void rangecons(u32 a, u32 b, std::false_type) {
        size_t n = b % (u32)(this->bulk + 1); T *buf = static_cast<T *>(::operator new(sizeof(T) * (n + 1))); std::set<int> in;
        for (size_t i = 0; i < n; i++) { int v = (int)((a + (u32)i * (1 + (b >> 8) % 7)) % (u32)dom()); in.insert(v); new (buf + i) T(Val<T>::mk(v)); }
        B::destroy(); { typedef dstruct::PrimitiveIterator<T> P; P bg(buf), en(buf + n); LIB(new (mem) C(bg, en, CmpDir<CMP, T>::mk(this->variant))); } this->alive = true; m = fresh(this->variant); m.s = in;
        for (size_t i = 0; i < n; i++) buf[i].~T();
        ::operator delete(buf);
    }
    void rangecons(u32 a, u32 b, std::true_type) { kop(7, a, b); }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.s.size();
        if ((n >= (size_t)this->cap || (int)n >= dom()) && (k == 0 || k == 1 || k == 7)) k = 8;
        if (!n && (k == 2 || k == 4 || k == 5 || k == 6 || k == 8 || k == 9 || k == 11 || k == 13 || k == 14)) k = 0;
        if (AVL && (k == 4 || k == 14)) k = 5;
        switch (k) {
        case 0: { int v = (int)(a % (u32)dom()); if (m.s.count(v)) v = absent(a); pushv(v); break; }
        case 1: { u32 x = 1 + b % (u32)this->bulk; int st = (a >> 16) & 1 ? -1 : 1; int v = (int)(a % (u32)dom()); for (u32 i = 0; i < x && (int)m.s.size() < this->cap; i++, v += st) { int w = ((v % dom()) + dom()) % dom(); if (!m.s.count(w)) pushv(w); } break; }
        case 2: popv(present(a)); break;
        case 3: { int v = absent(a); count(P_ABSENT); if (v >= 0) { T t = mark(v); LIB(c()->pop(t)); } break; }
        case 4: { int v = present(a); count(P_DUPLICATE); T t = mark(v); LIB(c()->push(t)); break; }
        case 5: erasev(present(a)); break;
        case 6: erase_loop(a); break;
        case 7: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.s.size() < (size_t)this->cap; i++) { int v = absent(a + i * (7 + (b >> 8) % 60)); if (v >= 0) pushv(v); } break; }
        case 8: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.s.empty(); i++) popv(present(a + i * 11)); break; }
        case 9: { Seq p = preorder(); if (!p.empty() && m.s.count(p[0])) { if (a & 1) popv(p[0]); else erasev(p[0]); } break; }
        case 10: rangecons(a, b, IsAvl()); break;
        case 11: { u32 i = a; while (!m.s.empty()) { if (a & 1) popv(present(i)); else erasev(present(i)); i += b | 1; } break; }
        case 12: { u32 x = 1 + b % (u32)(2 * this->bulk); int v = (int)(a % (u32)dom()); for (u32 i = 0; i < x; i++, v = (v + 1) % dom()) { if (!m.s.count(v)) pushv(v); while (m.s.size() > 3) popv(present((u32)(v + dom() - 5))); } break; }
        case 13: case 14: {   // the argument is the tree's own element
            int v = present(a); if (k == 13) note_removal(v); count(F_ALIASED_ARG);
            { LibScope ls; T t = Val<T>::mk(v); It it = c()->find(t); if (it != c()->end()) { if (k == 13) c()->pop(*it); else push_own(it, IsAvl()); } }
            if (k == 13) m.s.erase(v); break; }
        }
    }
    void push_own(It it, std::false_type) { c()->push(*it); }
    void push_own(It, std::true_type) {}
    void contents_replaced() { hs.h.clear(); }
    void contents_moved_from(Obj *p) { auto *q = static_cast<KTree *>(p); hs.h.swap(q->hs.h); q->hs.h.clear(); }
    void handles_check(const char *when) {
        typedef typename Handles<It>::H H; Seq order = sorted();
        for (size_t i = 0; i < order.size(); i++) {
            auto f = hs.h.find(order[i]); if (f == hs.h.end()) continue;
            int byptr = vo(*(const T *)f->second.addr), byit; const void *ad; { LibScope ls; It it = f->second.it; byit = vo(*it); ad = &*it; }
            if (byptr != order[i] || byit != order[i] || ad != f->second.addr) fail("handle", "%s: after %s a pointer or iterator to element %d denotes %d / %d", this->ki->name, when, order[i], byptr, byit);
            auto g = i + 1 < order.size() ? hs.h.find(order[i + 1]) : hs.h.end();
            { LibScope ls; It it = f->second.it; ++it; if (g != hs.h.end() && !(it == g->second.it)) fail("handle", "%s: after %s the iterator to %d does not advance to %d", this->ki->name, when, order[i], order[i + 1]); if (i + 1 == order.size() && it != c()->end()) fail("handle", "%s: after %s the iterator to the last element does not advance to end", this->ki->name, when); }
            { LibScope ls; T t = Val<T>::mk(order[i]); It it = c()->find(t); if (!(it == f->second.it)) fail("handle", "%s: after %s element %d is found at another address", this->ki->name, when, order[i]); }
            count(P_HANDLE_SURVIVED);
        }
        std::map<int, H> nh; size_t lim = order.size() + 4;
        { LibScope ls; It e = c()->end(); for (It it = c()->begin(); it != e && lim--; ++it) { bool l = g_in_lib; g_in_lib = false; int v = vo(*it); auto f = hs.h.find(v); H h = {f != hs.h.end() ? f->second.addr : (const void *)&*it, f != hs.h.end() ? f->second.it : it}; nh.insert(std::make_pair(v, h)); g_in_lib = l; } }
        hs.h.swap(nh);
    }
};

// ---------------------------------------------------------------- Map
struct MapM { std::map<int, int> s; };
template <class C, class K, class V, class CMP> struct KMap : KBase<KMap<C, K, V, CMP>, C, MapM> {
    typedef KBase<KMap<C, K, V, CMP>, C, MapM> B; using B::m; using B::c; using B::cc;
    typedef typename C::IteratorType It;
    Handles<It> hs;
    static MapM fresh(int) { return MapM(); }
    static size_t model_size(const MapM &s) { return s.s.size(); }
    static int kdir() { return CmpDir<CMP, K>::of(0); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"write", 26}, {"write_present", 8}, {"touch", 6}, {"push", 12}, {"pop", 14}, {"pop_absent", 4}, {"erase", 12}, {"find_absent", 3}, {"erase_loop", 3}, {"bulk_write", 5}, {"bulk_pop", 5}, {"drain", 1}, {"slide", 2}, {"pop_own", 4}, {"write_own", 3}, {"copy_value", 4}}; n = sizeof t / sizeof *t; return t; }
    int dom() const { return this->domain ? this->domain : 64; }
    static int probe_step(int d) { return d <= 24 ? 1 : d / 17 + 1; }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); if (n > (1u << 24)) return;
        o.put(MK_FWD); size_t k = 0;
        for (auto it = x.begin(); it != x.end(); ++it) { if (k++ > n + 64) { o.put(MK_RUNAWAY); break; } o.put(vo(it->key)); o.put(vo(it->value)); }
        if (this->light == 0 || n < 24)
            for (int v = 0; v < dom(); v += probe_step(dom())) { K t = Val<K>::mk(v); auto it = x.find(t); bool f = it != x.end(); o.put(f); if (f) { o.put(vo(it->key)); o.put(vo(it->value)); o.put(vo(x[t])); } }
        o.put((i64)x.size()); o.put(MK_END);
    }
    template <class CC> void robs(CC &x, u32 a, Obs &o) {
        for (int i = 0; i < 6; i++) { K t = Val<K>::mk((int)(a + (u32)i * 5) % dom()); auto it = x.find(t); bool f = it != x.end(); o.put(f); if (f) { o.put(vo(it->value)); o.put(vo(x[t])); } }
    }
    Seq sorted() const { Seq v; for (auto &e : m.s) v.push_back(e.first); if (kdir() != 1) std::reverse(v.begin(), v.end()); return v; }
    void mobs(const MapM &s, Obs &o) {
        size_t n = s.s.size(); o.put((i64)n); o.put(s.s.empty()); o.put(MK_FWD);
        Seq v; for (auto &e : s.s) v.push_back(e.first); if (kdir() != 1) std::reverse(v.begin(), v.end());
        for (int x : v) { o.put(x); o.put(s.s.find(x)->second); }
        if (this->light == 0 || n < 24)
            for (int x = 0; x < dom(); x += probe_step(dom())) { auto f = s.s.find(x); o.put(f != s.s.end()); if (f != s.s.end()) { o.put(x); o.put(f->second); o.put(f->second); } }
        o.put((i64)n); o.put(MK_END);
    }
    int newv(u32 a) { return (int)((a >> 3) % 100000u) % (int)MaxVal<V>::v; }
    int absent(u32 a) { int d = dom(); for (int i = 0; i < d; i++) { int v = (int)((a + (u32)i) % (u32)d); if (!m.s.count(v)) return v; } return -1; }
    int present(u32 a) { auto it = m.s.lower_bound((int)(a % (u32)dom())); if (it == m.s.end() || (a >> 24) % 8 == 3) it = m.s.begin(); else if ((a >> 24) % 8 == 5) it = --m.s.end(); return it->first; }
    void write(int k, int w) { K t = Val<K>::mk(k); V v = Val<V>::mk(w); LIB((*c())[t] = v); m.s[k] = w; }
    void popk(int k) { K t = Val<K>::mk(k); LIB(c()->pop(t)); m.s.erase(k); hs.h.erase(k); }
    void erasek(int k) {
        int next = 0; bool last = !next_in(m.s, k, kdir(), next), isend; int got = 0; K t = Val<K>::mk(k);
        { LibScope ls; It it = c()->find(t); if (!(it != c()->end())) { if (this->judge_model) fail("lookup", "%s: present key %d is not found", this->ki->name, k); bool l = g_in_lib; g_in_lib = false; m.s.erase(k); g_in_lib = l; return; } It nx = c()->erase(it); isend = !(nx != c()->end()); if (!isend) got = vo(nx->key); }
        m.s.erase(k); hs.h.erase(k);
        if (this->judge_handles || this->judge_model) { if (last != isend) fail("erase-next", "%s: erase of key %d returned %s", this->ki->name, k, isend ? "end, but elements follow" : "an element, but none follows"); if (!isend && got != next) fail("erase-next", "%s: erase of key %d returned an iterator to %d, the next key is %d", this->ki->name, k, got, next); }
        log_u64(isend ? 1 : (u64)got);
    }
    void erase_loop(u32 a) {
        count(F_ERASE_IN_LOOP);
        Seq order = sorted(), seen; u32 mod = 2 + a % 4, rem = (a >> 4) % mod; if ((a >> 10) % 4 == 0) mod = 1, rem = 0;
        { LibScope ls; size_t lim = order.size() + 16; u32 i = 0;
          for (It it = c()->begin(); it != c()->end() && lim--; i++) { int v = vo(it->key); bool l = g_in_lib; g_in_lib = false; seen.push_back(v); bool del = i % mod == rem; g_in_lib = l; if (del) it = c()->erase(it); else ++it; } }
        if ((this->judge_handles || this->judge_model) && seen != order) fail("erase-loop", "%s: a loop that erases while iterating met %zu elements, there were %zu, or in another order", this->ki->name, seen.size(), order.size());
        for (u32 i = 0; i < order.size(); i++) if (i % mod == rem) { m.s.erase(order[i]); hs.h.erase(order[i]); }
    }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.s.size();
        if ((n >= (size_t)this->cap || (int)n >= dom()) && (k == 0 || k == 2 || k == 3 || k == 9)) k = n ? 10 : 7;
        if (!n && (k == 1 || k == 4 || k == 6 || k == 8 || k == 10 || k == 11 || k >= 13)) k = 0;
        if (k == 15 && (n >= (size_t)this->cap || (int)n >= dom())) k = 1;
        switch (k) {
        case 0: write((int)(a % (u32)dom()), newv(b)); break;
        case 1: write(present(a), newv(b)); break;
        case 2: { int x = absent(a); if (x < 0) return; K t = Val<K>::mk(x); int got; { LibScope ls; V &r = (*c())[t]; got = vo(r); } const int def = vo(V()); if (this->judge_model && got != def) fail("default", "%s: indexing absent key %d gave %d, not a default value", this->ki->name, x, got); m.s[x] = def; break; }
        case 3: { int x = absent(a); if (x < 0) return; int w = newv(b); K t = Val<K>::mk(x); V v = Val<V>::mk(w); { LibScope ls; typename C::KeyValueType kv(t, v); c()->push(kv); } m.s[x] = w; break; }
        case 4: popk(present(a)); break;
        case 5: { int x = absent(a); if (x < 0) return; count(P_ABSENT); K t = Val<K>::mk(x); LIB(c()->pop(t)); break; }
        case 6: erasek(present(a)); break;
        case 7: { int x = absent(a); if (x < 0) return; count(P_ABSENT); K t = Val<K>::mk(x); bool f; { LibScope ls; f = c()->find(t) != c()->end(); } if (this->judge_model && f) fail("lookup", "%s: absent key %d is found", this->ki->name, x); break; }
        case 8: erase_loop(a); break;
        case 9: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.s.size() < (size_t)this->cap; i++) { int v = absent(a + i * (7 + (b >> 8) % 60)); if (v >= 0) write(v, newv(a * 31 + i)); } break; }
        case 10: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.s.empty(); i++) { int v = present(a + i * 11); if ((a >> 20) & 1) erasek(v); else popk(v); } break; }
        case 11: { u32 i = a; while (!m.s.empty()) { if (a & 1) popk(present(i)); else erasek(present(i)); i += b | 1; } break; }
        case 12: { u32 x = 1 + b % (u32)(2 * this->bulk); int v = (int)(a % (u32)dom()); for (u32 i = 0; i < x; i++, v = (v + 1) % dom()) { write(v, newv(a + i)); while (m.s.size() > 3) popk(present((u32)(v + dom() - 5))); } break; }
        case 13: case 14: {   // the key given is the map's own
            int x = present(a), w = newv(b); count(F_ALIASED_ARG); K t = Val<K>::mk(x); V v = Val<V>::mk(w);
            { LibScope ls; It it = c()->find(t); if (it != c()->end()) { if (k == 13) c()->pop(it->key); else (*c())[it->key] = v; } }
            if (k == 13) { m.s.erase(x); hs.h.erase(x); } else m.s[x] = w; break; }
        case 15: { int x = present(a), y = (int)(b % (u32)dom()); K s = Val<K>::mk(x), t = Val<K>::mk(y); { LibScope ls; V &r = (*c())[t]; r = (*c())[s]; } int w = m.s[x]; m.s[y] = w; break; }
        }
    }
    void contents_replaced() { hs.h.clear(); }
    void contents_moved_from(Obj *p) { auto *q = static_cast<KMap *>(p); hs.h.swap(q->hs.h); q->hs.h.clear(); }
    void handles_check(const char *when) {
        typedef typename Handles<It>::H H; Seq order = sorted();
        for (size_t i = 0; i < order.size(); i++) {
            auto f = hs.h.find(order[i]); if (f == hs.h.end()) continue; int want = m.s.find(order[i])->second;
            int byk, byv; const void *ad; { LibScope ls; It it = f->second.it; byk = vo(it->key); byv = vo(it->value); ad = &*it; }
            if (byk != order[i] || byv != want || ad != f->second.addr) fail("handle", "%s: after %s an iterator to key %d -> %d denotes %d -> %d", this->ki->name, when, order[i], want, byk, byv);
            auto g = i + 1 < order.size() ? hs.h.find(order[i + 1]) : hs.h.end();
            { LibScope ls; It it = f->second.it; ++it; if (g != hs.h.end() && !(it == g->second.it)) fail("handle", "%s: after %s the iterator to %d does not advance to %d", this->ki->name, when, order[i], order[i + 1]); if (i + 1 == order.size() && it != c()->end()) fail("handle", "%s: after %s the iterator to the last key does not advance to end", this->ki->name, when);
              K t = Val<K>::mk(order[i]); It q = c()->find(t); if (!(q == f->second.it)) fail("handle", "%s: after %s key %d is found at another address", this->ki->name, when, order[i]); }
            count(P_HANDLE_SURVIVED);
        }
        std::map<int, H> nh; size_t lim = order.size() + 4;
        { LibScope ls; It e = c()->end(); for (It it = c()->begin(); it != e && lim--; ++it) { bool l = g_in_lib; g_in_lib = false; int v = vo(it->key); auto f = hs.h.find(v); H h = {f != hs.h.end() ? f->second.addr : (const void *)&*it, f != hs.h.end() ? f->second.it : it}; nh.insert(std::make_pair(v, h)); g_in_lib = l; } }
        hs.h.swap(nh);
    }
};

// ---------------------------------------------------------------- union-find
struct UFM { std::vector<int> lab; int sets; UFM() : sets(0) {} };
template <class C> struct KUF : KBase<KUF<C>, C, UFM> {
    typedef KBase<KUF<C>, C, UFM> B; using B::m; using B::c; using B::cc; using B::mem;
    int n0; std::vector<std::vector<int> > members;   // by label
    KUF() : n0(0) {}
    static void construct(void *mem, int n) { new (mem) C(n < 1 ? 1 : n); }
    static UFM fresh(int n) { UFM u; if (n == 0) return u; if (n < 1) n = 1; u.lab.resize((size_t)n); for (int i = 0; i < n; i++) u.lab[(size_t)i] = i; u.sets = n; return u; }
    static UFM moved(const UFM &) { return UFM(); }
    void do_clear() { this->generic(G_RECREATE, 0, 0, 0); }
    void create() { if (this->variant < 1) this->variant = 1; B::create(); }
    void contents_replaced() { members.clear(); }
    static size_t model_size(const UFM &u) { return u.lab.size(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"connect", 30}, {"union_roots", 12}, {"find", 12}, {"connected", 8}, {"connect_same", 4}, {"bulk_connect", 6}, {"chain", 3}, {"tournament", 2}, {"recreate_sized", 2}, {"fold_trees", 3}}; n = sizeof t / sizeof *t; return t; }
    struct Lower { char *keep; Lower() : keep(g_stack_low) { g_stack_low = (char *)__builtin_frame_address(0); } };
    template <class CC> void obs_const(CC &x, Obs &o) { o.put((i64)x.size()); o.put(x.empty()); o.put((i64)x.count()); o.put(x.capacity() >= x.size()); }
    bool probe(size_t i, size_t n) { return n <= 64 || i % (n / 32 + 1) == 0 || i + 1 == n; }
    // every element's representative: a member of its own set, the same for the whole set; reported as the smallest member index
    void obs(C &x, Obs &o) {
        obs_const(x, o); size_t n = (size_t)x.size(); if (n > (1u << 24)) return;
        std::map<int, int> first;
        for (size_t i = 0; i < n; i++) if (probe(i, n)) { int r = find_checked(x, (int)i); bool l = g_in_lib; g_in_lib = false; auto q = first.insert(std::make_pair(r, (int)i)); o.put(q.first->second); g_in_lib = l; }
        o.put((i64)x.count()); o.put(MK_END);
    }
    void obs(const C &x, Obs &o) { obs_const(x, o); }
    void mobs(const UFM &u, Obs &o) {
        size_t n = u.lab.size(); o.put((i64)n); o.put(n == 0); o.put(u.sets); o.put(1);
        std::map<int, int> first; for (size_t i = 0; i < n; i++) if (probe(i, n)) { auto q = first.insert(std::make_pair(u.lab[i], (int)i)); o.put(q.first->second); }
        o.put(u.sets); o.put(MK_END);
    }
    long depth_limit(size_t n) { int lg = 0; while ((size_t)1 << lg < n + 1) lg++; return 6144 + 768 * (lg + 3); }
    template <class F> void deep(F f) {
        char *here = (char *)__builtin_frame_address(0); g_stack_low = here;
        { LibScope ls; f(); }
        if (this->judge_depth && here - g_stack_low > depth_limit(m.lab.size())) fail("depth", "%s: an operation on %zu elements used %ld bytes of stack, more than logarithmic depth allows", this->ki->name, m.lab.size(), (long)(here - g_stack_low));
    }
    int find_checked(C &x, int i) { int r; char *here = (char *)__builtin_frame_address(0); char *k = g_stack_low; g_stack_low = here; r = x.find(i); if (this->judge_depth && here - g_stack_low > depth_limit(m.lab.size())) fail("depth", "%s: find among %zu elements used %ld bytes of stack, more than logarithmic depth allows", this->ki->name, m.lab.size(), (long)(here - g_stack_low)); g_stack_low = k; return r; }
    void ensure_members() { if (!members.empty() || m.lab.empty()) return; members.resize(m.lab.size()); for (size_t i = 0; i < m.lab.size(); i++) members[(size_t)m.lab[i]].push_back((int)i); }
    void mjoin(int a, int b) {
        ensure_members(); int la = m.lab[(size_t)a], lb = m.lab[(size_t)b]; if (la == lb) return;
        if (members[(size_t)la].size() < members[(size_t)lb].size()) std::swap(la, lb);
        for (int x : members[(size_t)lb]) { m.lab[(size_t)x] = la; members[(size_t)la].push_back(x); }
        members[(size_t)lb].clear(); m.sets--;
    }
    void connect(int a, int b) { deep([&] { c()->connect(a, b); }); mjoin(a, b); }
    void unite(int a, int b) { int ra, rb; deep([&] { ra = c()->find(a); rb = c()->find(b); }); if (!ok(a, ra) || !ok(b, rb)) return; deep([&] { c()->union_set(ra, rb); }); mjoin(a, b); }
    int join_roots(int a, int b) { int ra, rb, r; deep([&] { ra = c()->find(a); rb = c()->find(b); }); if (!ok(a, ra) || !ok(b, rb)) return a; deep([&] { c()->union_set(ra, rb); }); mjoin(a, b); deep([&] { r = c()->find(ra); }); return ok(a, r) ? r : a; }
    bool ok(int a, int r) { size_t n = m.lab.size(); bool good = r >= 0 && (size_t)r < n && m.lab[(size_t)r] == m.lab[(size_t)a]; if (!good && this->judge_model) fail("partition", "%s: find(%d) gave %d, which is not in its set", this->ki->name, a, r); return good; }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.lab.size(); if (k == 8 || n == 0) { if (k == 8) { this->variant = 1 + (int)(b % (u32)(this->cap > 0 ? this->cap : 16)); this->generic(G_RECREATE, 0, 0, 0); } return; }
        int x = (int)(a % n), y = (int)(b % n);
        switch (k) {
        case 0: connect(x, y); break;
        case 1: unite(x, y); break;
        case 2: { int r = 0; deep([&] { r = c()->find(x); }); ok(x, r); break; }
        case 3: { bool q = false; deep([&] { q = c()->connected(x, y); }); bool e = m.lab[(size_t)x] == m.lab[(size_t)y]; if (this->judge_model && q != e) fail("partition", "%s: connected(%d,%d) is %d", this->ki->name, x, y, q); log_u64(q); break; }
        case 4: { ensure_members(); auto &g = members[(size_t)m.lab[(size_t)x]]; int z = g[b % g.size()]; if (a & 1) connect(x, z); else unite(x, z); break; }
        case 5: { u32 q = 1 + b % (u32)this->bulk; Rng r(a); for (u32 i = 0; i < q; i++) connect((int)r.below((u32)n), (int)r.below((u32)n)); break; }
        case 6: {   // one element after another joins the same set, in one of several directions, by roots only (no lookups of old members)
            size_t q = std::min(n, (size_t)(1 + b % (u32)(this->bulk * 64))); int mode = (int)(a >> 8) % 4; size_t st = a % n;
            for (size_t i = 1; i < q; i++) { int u = (int)((st + i - 1) % n), v = (int)((st + i) % n); if (mode == 0) connect(u, v); else if (mode == 1) connect(v, u); else if (mode == 2) unite((int)st, v); else unite(v, (int)st); }
            break; }
        case 9: {   // many trees of the same rank, built by unions of roots only, then folded one after another into one set
            size_t w = (size_t)1 << (a >> 4) % 7, st = (a >> 8) % n; int how = (int)(b % 5); int acc = -1; Rng r(b);
            for (size_t i = 0; i + w <= n && i < (1u << 16); i += w) {
                std::vector<int> rt; for (size_t k = 0; k < w; k++) rt.push_back((int)((st + i + k) % n));
                for (size_t s = 1; s < w; s *= 2) for (size_t k = 0; k + s < w; k += 2 * s) rt[k] = join_roots(rt[k], rt[k + s]);
                if (acc < 0) acc = rt[0]; else if (how == 0 || (how == 2 && r.chance(1, 2)) || (how == 3 && (i / w) % 2)) acc = join_roots(acc, rt[0]); else acc = join_roots(rt[0], acc);
            }
            for (int i = 0; i < 6; i++) { int e = (int)((st + (i < 3 ? r.below((u32)std::min(n, 2 * w)) : r.below((u32)n))) % n), q = 0; deep([&] { q = c()->find(e); }); ok(e, q); }
            break; }
        case 7: {   // balanced tournament: the deepest trees a ranked union can build
            Rng r(b); size_t start = a % n; for (size_t w = 1; w < n && w <= 65536; w *= 2) for (size_t i = 0; i + w < n; i += 2 * w) { int u = (int)((start + i) % n), v = (int)((start + i + w) % n); if (r.chance(1, 2)) std::swap(u, v); unite(u, v); }
            break; }
        }
    }
};

// ---------------------------------------------------------------- String
template <class C> struct KString : KBase<KString<C>, C, std::string> {
    typedef KBase<KString<C>, C, std::string> B; using B::m; using B::c; using B::cc; using B::mem; using B::tmp;
    static std::string fresh(int) { return std::string(); }
    static size_t model_size(const std::string &s) { return s.size(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"push_back", 20}, {"append_cstr", 10}, {"append_self", 3}, {"append_copy", 5}, {"assign_cstr", 4}, {"plus", 6}, {"write_index", 8}, {"write_iter", 3}, {"construct_cstr", 5}, {"compare", 8}, {"bulk_push", 4}, {"plus_self", 2}, {"append_own_cstr", 4}, {"assign_own_cstr", 3}, {"push_own_char", 3}, {"plus_own_cstr", 2}}; n = sizeof t / sizeof *t; return t; }
    static char ch(u32 a) { unsigned char x = (unsigned char)(a * 2654435761u >> 24); if (a % 5) x = (unsigned char)('a' + x % 26); return x ? (char)x : 'z'; }
    static char ch0(u32 a) { return a % 11 == 3 ? '\0' : ch(a); }                      // a terminator may be an element like any other
    static std::string cut(const std::string &s) { return std::string(s.c_str()); }      // what a C string of it denotes
    static void fill(C &t, const std::string &s) { for (char q : s) t.push_back(q); }
    static std::string lit(u32 a, u32 len) { std::string s; for (u32 i = 0; i < len; i++) s.push_back(ch(a + i * 3)); return s; }
    u32 len(u32 b) { static const u32 l[] = {0, 1, 2, 3, 7, 13, 14, 15, 16, 17, 29, 30, 31, 40}; u32 x = l[b % 14]; if (b % 97 == 5) x = 100 + b % 300; return std::min(x, (u32)std::max(this->cap, 4)); }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); o.put(x.capacity() >= x.size()); if (n > (1u << 24)) return;
        o.put(MK_FWD); size_t k = 0; for (auto it = x.begin(); it != x.end(); ++it) { if (k++ > n + 64) { o.put(MK_RUNAWAY); break; } o.put(*it); }
        if (this->light == 0 || n < 24) { obs_forward_post(x, o, n); obs_backward(x, o, n); obs_jumps(x, o, n); }
        o.put(MK_IDX); for (size_t i = 0; i < n; i++) if (n < 64 || i < 40 || i + 20 > n || i % 11 == 0) o.put(x[(int)i]);
        const char *p = x.c_str(); for (size_t i = 0; i <= n; i++) if (n < 64 || i + 20 > n || i % 7 == 0) o.put(p[i]);
        if (n) { o.put(x.front()); o.put(x.back()); } o.put(MK_END);
    }
    void mobs(const std::string &s, Obs &o) {
        size_t n = s.size(); o.put((i64)n); o.put(s.empty()); o.put(1);
        o.put(MK_FWD); for (char q : s) o.put(q);
        if (this->light == 0 || n < 24) { Seq q(s.begin(), s.end()); mobs_forward(q, o); mobs_backward(q, o); mobs_jumps(q, o); }
        o.put(MK_IDX); for (size_t i = 0; i < n; i++) if (n < 64 || i < 40 || i + 20 > n || i % 11 == 0) o.put(s[i]);
        for (size_t i = 0; i <= n; i++) if (n < 64 || i + 20 > n || i % 7 == 0) o.put(i < n ? s[i] : 0);
        if (n) { o.put(s[0]); o.put(s[n - 1]); } o.put(MK_END);
    }
    template <class CC> void robs(CC &x, u32 a, Obs &o) { std::string l = lit(a, len(a)); o.put(x == x); o.put(x != x); o.put(x == l.c_str()); o.put(l.c_str() != x); { C t = x + l.c_str(); o.put((i64)t.size()); o.put(t == x); } }
    void put1(char v) { LIB(c()->push_back(v)); m.push_back(v); }
    void cmp(u32 a, u32 b) {
        // the same sequence, a proper prefix, an extension, one character changed
        std::string o = m; int how = (int)(a % 5);
        if (how == 1 && !o.empty()) o.resize(o.size() - 1); else if (how == 2) o.push_back('q'); else if (how == 3 && !o.empty()) { size_t i = b % o.size(); o[i] = o[i] == 'x' ? 'y' : 'x'; } else if (how == 4) o = lit(a, len(b));
        if (b % 7 == 2 && o.size() > 1) o[(b >> 8) % o.size()] = '\0';
        if (b % 7 == 3) { size_t z = m.find('\0'); if (z != std::string::npos && z + 1 < o.size()) { size_t i = z + 1 + (b >> 9) % (o.size() - z - 1); o[i] = o[i] == 'x' ? 'y' : 'x'; } }
        int r[8]; { LibScope ls; const char *p = o.c_str(); r[0] = *cc() == p; r[1] = p == *cc(); r[2] = *cc() != p; r[3] = p != *cc(); C t; fill(t, o); r[4] = *cc() == t; r[5] = t == *cc(); r[6] = *cc() != t; r[7] = t != *cc(); }
        int eo = m == o, ec = m == cut(o); for (int i = 0; i < 8; i++) { int e = i < 4 ? ec : eo; log_u64((u64)r[i]); if (this->judge_model && r[i] != (((i / 2) & 1) ? !e : e)) fail("comparison", "%s: comparison form %d of strings of %zu and %zu characters gave %d", this->ki->name, i, m.size(), o.size(), r[i]); }
    }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.size(); bool full = n >= (size_t)this->cap;
        if (full && (k == 0 || k == 1 || k == 2 || k == 3 || k == 5 || k == 10 || k == 11 || k == 12 || k == 14 || k == 15)) { if (a % 3 == 0) this->generic(G_CLEAR, 0, 0, 0); else k = 4; if (k != 4) return; }
        if (!n && (k == 6 || k == 7 || k == 14)) k = 0;
        u32 off = n ? (a % 3 ? a / 3 % (u32)(n + 1) : 0) : 0;                               // into the string's own characters
        switch (k) {
        case 0: put1(ch0(a >> 3)); break;
        case 1: { std::string s = lit(a, len(b)); LIB(*c() += s.c_str()); m += s; break; }
        case 2: count(F_ALIASED_ARG); LIB(*c() += *cc()); m += std::string(m); break;
        case 3: { std::string s = lit(a, len(b)); if (s.size() && b % 9 == 4) s[(b >> 8) % s.size()] = '\0'; { LibScope ls; C t; fill(t, s); *c() += t; } m += s; break; }
        case 4: { std::string s = lit(a, len(b)); LIB(*c() = s.c_str()); m = s; break; }
        case 5: { std::string s = lit(a, len(b)); int w = (int)(a % 3); { LibScope ls; if (w == 0) *c() = *cc() + s.c_str(); else if (w == 1) *c() = s.c_str() + *cc(); else { C t; fill(t, s); *c() = t + *cc(); } } m = w == 0 ? m + s : s + m; break; }
        case 6: { size_t i = b % n; char v = ch0(a >> 3); LIB((*c())[(int)i] = v); m[i] = v; break; }
        case 7: { size_t i = 0; char v = ch0(a >> 3); { LibScope ls; for (auto it = c()->begin(); it != c()->end(); ++it, i++) { if (i % 3 == b % 3) { *it = v; if (i < m.size()) m[i] = v; } if (i > n + 8) break; } } break; }
        case 8: { std::string s = lit(a, len(b)); B::destroy(); LIB(new (mem) C(s.c_str())); this->alive = true; m = s; break; }
        case 9: cmp(a, b); break;
        case 10: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.size() < (size_t)this->cap; i++) put1(ch(a + i)); break; }
        case 11: count(F_ALIASED_ARG); LIB(*c() = *cc() + *cc()); m = m + m; break;
        case 12: { count(F_ALIASED_ARG); std::string s = cut(m.substr(off)); LIB(*c() += cc()->c_str() + off); m += s; break; }
        case 13: { count(F_ALIASED_ARG); std::string s = cut(m.substr(off)); LIB(*c() = cc()->c_str() + off); m = s; break; }
        case 14: { count(F_ALIASED_ARG); size_t i = b % n; char v = m[i]; LIB(c()->push_back((*c())[(int)i])); m.push_back(v); break; }
        case 15: { count(F_ALIASED_ARG); std::string s = cut(m.substr(off)); { LibScope ls; if (b & 1) *c() = *cc() + (cc()->c_str() + off); else *c() = (cc()->c_str() + off) + *cc(); } m = (b & 1) ? m + s : s + m; break; }
        }
    }
};

// ---------------------------------------------------------------- registration
template <class T> struct IsElem { enum { v = 0 }; };
template <int N, int K> struct IsElem<Elem<N, K> > { enum { v = 1 }; };
template <class K> KindInfo kind(const char *name, const char *family, size_t esz, int flags, int dom, long block = 0, int elems = -1) {
    if (elems < 0) elems = esz >= 24 ? 1 : 0;
    if (strstr(name, "A32")) flags |= KF_ALIGN16;
    KindInfo k = {name, family, K::make, K::ops, K::object_size(), esz, flags, dom, block, elems}; return k;
}
#define REG(...) static RegKind SIM_CAT(reg_, __COUNTER__)(__VA_ARGS__)
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_CAT2(a, b) a##b
}
#endif
