// Container kinds: drive the real containers through their public API next to a plain reference model.
// Compiled with the compiler-inserted tick callbacks; library code runs inside LIB(...).
#ifndef SIM_KINDS_HPP
#define SIM_KINDS_HPP
#include "heap.hpp"
#define malloc sim_malloc
#define free sim_free
#define calloc sim_calloc
#define realloc sim_realloc
#include <dstruct.hpp>
#include <dstruct-static.hpp>
#undef malloc
#undef free
#undef calloc
#undef realloc
#include "kindapi.hpp"

namespace sim {
#define LIB(...) do { LibScope ls_; __VA_ARGS__; } while (0)

// ---------------------------------------------------------------- element values
template <class T> struct Val { static T mk(int v) { return T(v); } static int of(const T &t) { return t.get(); } };
// The models number values 0, 1, 2, ...; a run may represent the numbers of arithmetic types by far ends of the type, order kept
// below the run's domain. The table lies outside static storage, so reading it is no hot point.
template <> struct Val<int> {
    static int mk(int v) { return codec()->mode ? codec_mk(v) : v; } static int of(const int &t) { return codec()->mode ? codec_of(t) : t; }
};
template <> struct Val<short> { static short mk(int v) { return (short)(codec()->mode ? v - 15000 : v); } static int of(const short &t) { return codec()->mode ? t + 15000 : t; } };
template <> struct Val<char> { static char mk(int v) { return (char)v; } static int of(const char &t) { return t; } };
template <> struct Val<double> { static double mk(int v) { return codec()->mode ? (v - 20) * 0.25 : v; } static int of(const double &t) { return codec()->mode ? (t * 4 == (int)(t * 4) ? (int)(t * 4) + 20 : -88888888) : (int)t; } };
template <> struct Val<int *> { static int *mk(int v) { return v ? (int *)((char *)0x10000000ull + (long)v * 0x40000008l) : (int *)0; } static int of(int *const &t) { long d = (char *)t - (char *)0x10000000ull; return !t ? 0 : d > 0 && d % 0x40000008l == 0 ? (int)(d / 0x40000008l) : -88888888; } };
template <> struct Val<unsigned char> { static unsigned char mk(int v) { return (unsigned char)v; } static int of(const unsigned char &t) { return t; } };
// twelve bytes, no constructors of its own: block sizes are then no multiple of eight
struct Tri { int a, b, c; bool operator<(const Tri &o) const { CallbackScope s; return a < o.a; } bool operator>(const Tri &o) const { CallbackScope s; return a > o.a; } };
template <> struct Val<Tri> { static Tri mk(int v) { Tri t = {v, v * 3, v * 7}; return t; } static int of(const Tri &t) { return t.b == t.a * 3 && t.c == t.a * 7 ? t.a : -77779; } };
// a key with a mark the order does not look at; a value made as a duplicate or a search argument carries another mark than a stored one
struct Tag { int k, tag; bool operator<(const Tag &o) const { CallbackScope s; return k < o.k; } bool operator>(const Tag &o) const { CallbackScope s; return k > o.k; } };
template <> struct Val<Tag> { static Tag mk(int v) { Tag t = {v, v * 2}; return t; } static int of(const Tag &t) { return t.tag == t.k * 2 ? t.k : -77770; } };
template <class T> inline T marked(const T &t) { return t; }
inline Tag marked(Tag t) { t.tag++; return t; }
template <class T> inline int vo(const T &t) { return Val<T>::of(t); }
template <class T> struct MaxVal { enum { v = 1 << 28 }; };
template <> struct MaxVal<int *> { enum { v = 1 << 16 }; };
template <> struct MaxVal<short> { enum { v = 30000 }; };
template <> struct MaxVal<unsigned char> { enum { v = 250 }; };

// ---------------------------------------------------------------- generic part
template <class D, class C, class M> struct KBase : Obj {
    M m;
    C *c() { return (C *)mem; }
    const C *cc() const { return (const C *)mem; }
    D *self() { return static_cast<D *>(this); }
    static Obj *make() { return new D(); }
    static size_t object_size() { return sizeof(C); }
    virtual void create() { junk(mem, sizeof(C)); { LibScope ls; D::construct(mem, variant); } m = D::fresh(variant); alive = true; contents_replaced(); }
    virtual void destroy() { LIB(c()->~C()); alive = false; junk(mem, sizeof(C)); contents_replaced(); }
    virtual void dump(Obs &o) { LibScope ls; self()->obs(*c(), o); }
    virtual void dump_const(Obs &o) { LibScope ls; self()->obs(*cc(), o); }
    virtual void expect(Obs &o) { self()->mobs(m, o); }
    virtual size_t msize() { return D::model_size(m); }
    virtual int n_kind_ops() { int n; D::ops(n); return n; }
    virtual void contents_replaced() {}
    virtual void contents_moved_from(Obj *) {}

    virtual void generic(int g, u32 a, u32 b, Obj *peer_) {
        D *p = peer_ ? static_cast<D *>(peer_) : 0;
        if (!p && (g == G_COPY_ASSIGN)) g = G_SELF_COPY;
        if (!p && (g == G_MOVE_ASSIGN)) g = G_SELF_MOVE;
        if (!p && (g == G_COPY_CTOR || g == G_MOVE_CTOR)) g = G_COPY_TEMP;
        switch (g) {
        case G_COPY_ASSIGN: LIB(*c() = *p->cc()); m = p->m; newer(p); contents_replaced(); break;
        case G_COPY_CTOR: destroy(); LIB(new (mem) C(*p->cc())); m = p->m; newer(p); alive = true; contents_replaced(); break;
        case G_MOVE_ASSIGN: LIB(*c() = dstruct::move(*p->c())); take_model(p); break;
        case G_MOVE_CTOR: destroy(); LIB(new (mem) C(dstruct::move(*p->c()))); alive = true; take_model(p); break;
        case G_SELF_COPY: count(F_SELF_ASSIGN); LIB(*c() = *cc()); break;
        case G_SELF_MOVE: count(F_SELF_ASSIGN); LIB(*c() = dstruct::move(*c())); break;
        case G_RECREATE: destroy(); self()->create(); break;
        case G_COPY_TEMP: {   // a copy that lives only here: equal when made, gone without a trace
            junk(tmp, sizeof(C));
            LIB(new (tmp) C(*cc()));
            Obs x, y; { LibScope ls; self()->obs(*(C *)tmp, x); } dump(y);
            if (judge_copies && x.v != y.v) fail("copy-differs", "%s: a copy differs from its source: %s vs %s", ki->name, x.str().c_str(), y.str().c_str());
            LIB(((C *)tmp)->~C());
            junk(tmp, sizeof(C));
            break; }
        case G_CLEAR: self()->do_clear(); break;
        default: break;
        }
        (void)a; (void)b;
    }
    void newer(D *p) { if (p->next_val > next_val) next_val = p->next_val; }   // values stay unique within an object
    void take_model(D *p) { newer(p); contents_replaced(); m = p->m; p->m = D::moved(p->m); contents_moved_from(p); }
    static M moved(const M &) { return D::fresh(0); }
    static M cleared(const M &) { return D::fresh(0); }
    static void construct(void *mem, int) { new (mem) C(); }
    void do_clear() { LIB(c()->clear()); m = D::cleared(m); contents_replaced(); }
    // const operations of a reader; what each sees must not depend on other readers
    virtual void reader_op(u32 a, void *scratch, Obs &o) {
        switch (a % 4) {
        case 0: case 1: dump_const(o); break;
        case 2: { C *t = (C *)scratch; LIB(new (t) C(*cc())); { LibScope ls; self()->obs(*t, o); } LIB(t->~C()); break; }
        case 3: { LibScope ls; self()->robs(*cc(), a / 4, o); break; }
        }
    }
    template <class CC> void robs(CC &x, u32, Obs &o) { self()->obs(x, o); }
    virtual void kind_op(int k, u32 a, u32 b) { self()->kop(k, a, b); }
};

// values: unique per object when domain is 0, otherwise from a small domain
inline int pickval(Obj &o, u32 a, int maxv) { int v = o.domain ? (int)(a % (u32)o.domain) : 1 + (int)(o.next_val++); if (v >= maxv) v %= maxv; return v; }
#define NEWVAL(a) pickval(*this, (a), (int)MaxVal<T>::v)

// ---------------------------------------------------------------- sequences
typedef std::vector<int> Seq;
enum { MK_FWD = 1000000007, MK_BWD, MK_IDX, MK_END, MK_RUNAWAY, MK_TRAV };

template <class C> inline void obs_forward(C &c, Obs &o, size_t limit) {
    o.put(MK_FWD); size_t n = 0;
    for (auto it = c.begin(); it != c.end(); ++it) { if (n++ > limit + 64) { o.put(MK_RUNAWAY); return; } o.put(vo(*it)); }
}
template <class C> inline void obs_forward_post(C &c, Obs &o, size_t limit) {
    o.put(MK_FWD); size_t n = 0;
    for (auto it = c.begin(); it != c.end(); it++) { if (n++ > limit + 64) { o.put(MK_RUNAWAY); return; } o.put(vo(*it)); }
}
template <class C> inline void obs_backward(C &c, Obs &o, size_t limit) {
    o.put(MK_BWD); size_t n = 0;
    for (auto it = c.end(); it != c.begin(); ) { --it; if (n++ > limit + 64) { o.put(MK_RUNAWAY); return; } o.put(vo(*it)); }
}
template <class C> inline void obs_backward_post(C &c, Obs &o, size_t limit) {
    o.put(MK_BWD); size_t n = 0;
    for (auto it = c.end(); it != c.begin(); ) {
        auto e = c.end(); auto old = it--; if (n++ > limit + 64) { o.put(MK_RUNAWAY); return; }
        if (old == e) { if (n > 1) o.put(MK_RUNAWAY); } else if (n <= 1) o.put(MK_RUNAWAY);          // the old position is what the expression gives
        auto re = old; --re; if (re != it) o.put(MK_RUNAWAY);
        o.put(vo(*it.operator->()));
    }
}
// iterator arithmetic: a few jumps from the begin, the end and the middle, both ways
template <class C> inline void obs_jumps(C &c, Obs &o, size_t n) {
    o.put(MK_IDX); int k = (int)n;
    auto b = c.begin(), e = c.end(); o.put(b + k == e); o.put(e - k == b); o.put(e + (-k) == b); o.put(b - (-k) == e); o.put(n ? b != e : b == e);
    for (int i = 0; i < k; i += 1 + k / 5) { auto it = b + i; o.put(vo(*it)); auto jt = e - (k - i); o.put(it == jt); int d = k - 1 - 2 * i; auto q = it + d; o.put(vo(*q)); o.put(q - d == it); auto old = it++; o.put(vo(*old)); o.put(it == b + (i + 1)); }
}
inline bool idx_probe(size_t i, size_t n) { return n <= 40 || i < 3 || i + 3 >= n || i % 13 == 7; }
template <class C> inline void obs_index(C &c, Obs &o, size_t n) {
    o.put(MK_IDX);
    for (size_t i = 0; i < n; i++) if (idx_probe(i, n)) { o.put(vo(c[(int)i])); o.put(vo(c[(int)i - (int)n])); }
}
inline void mobs_forward(const Seq &m, Obs &o) { o.put(MK_FWD); for (int v : m) o.put(v); }
inline void mobs_backward(const Seq &m, Obs &o) { o.put(MK_BWD); for (size_t i = m.size(); i-- > 0;) o.put(m[i]); }
inline void mobs_jumps(const Seq &m, Obs &o) {
    o.put(MK_IDX); int k = (int)m.size(); for (int i = 0; i < 5; i++) o.put(1);
    for (int i = 0; i < k; i += 1 + k / 5) { o.put(m[(size_t)i]); o.put(1); o.put(m[(size_t)(k - 1 - i)]); o.put(1); o.put(m[(size_t)i]); o.put(1); }
}
inline void mobs_index(const Seq &m, Obs &o) { o.put(MK_IDX); for (size_t i = 0; i < m.size(); i++) if (idx_probe(i, m.size())) { o.put(m[i]); o.put(m[i]); } }

template <class C, class T> struct KVector : KBase<KVector<C, T>, C, Seq> {
    typedef KBase<KVector<C, T>, C, Seq> B; using B::m; using B::c; using B::mem;
    static Seq fresh(int) { return Seq(); }
    static size_t model_size(const Seq &s) { return s.size(); }
    static const OpInfo *ops(int &n) {
        static const OpInfo t[] = {{"push_back", 20}, {"push", 6}, {"pop_back", 12}, {"pop", 4}, {"resize", 4, OPF_RESERVE}, {"resize_fill", 4}, {"write_index", 5}, {"push_back_own", 5}, {"resize_fill_own", 3}, {"write_iter", 2}, {"bulk_push", 4}, {"bulk_pop", 5}, {"construct_fill", 2}};
        n = sizeof t / sizeof *t; return t;
    }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty());
        o.put(x.capacity() >= x.size());
        if (n > (1u << 24)) return;
        obs_forward(x, o, n); obs_index(x, o, n); if (this->light == 0 || n < 24) { obs_forward_post(x, o, n); obs_backward(x, o, n); obs_jumps(x, o, n); o.put((i64)dstruct::distance(x.begin(), x.end())); }
        if (n) { o.put(vo(x.front())); o.put(vo(x.back())); }
        o.put(MK_END);
    }
    void mobs(const Seq &s, Obs &o) {
        o.put((i64)s.size()); o.put(s.empty()); o.put(1); mobs_forward(s, o); mobs_index(s, o); if (this->light == 0 || s.size() < 24) { mobs_forward(s, o); mobs_backward(s, o); mobs_jumps(s, o); o.put((i64)s.size()); }
        if (!s.empty()) { o.put(s.front()); o.put(s.back()); }
        o.put(MK_END);
    }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.size();
        if (n >= (size_t)this->cap && (k == 0 || k == 1 || k == 7 || k == 10)) k = 11;
        if (!n && (k == 2 || k == 3 || k == 6 || k == 7 || k == 9 || k == 11)) k = 0;
        switch (k) {
        case 0: { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push_back(v)); m.push_back(w); break; }
        case 1: { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push(v)); m.push_back(w); break; }
        case 2: LIB(c()->pop_back()); m.pop_back(); break;
        case 3: LIB(c()->pop()); m.pop_back(); break;
        case 4: { size_t x = b % ((u32)this->cap + 1); LIB(c()->resize(x)); if (x < n) m.resize(x); break; }
        case 5: { size_t x = b % ((u32)this->cap + 1); T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->resize(x, v)); m.resize(x, w); break; }
        case 6: { size_t i = b % n; T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); int ix = (b >> 16) & 1 ? (int)i - (int)n : (int)i; LIB((*c())[ix] = v); m[i] = w; break; }
        case 7: { size_t i = b % n; count(F_ALIASED_ARG); const T &r = (*c())[(int)i]; LIB(c()->push_back(r)); int w = m[i]; m.push_back(w); break; }
        case 8: { if (!n) return; size_t i = b % n, x = 1 + (b >> 12) % (u32)this->cap; count(F_ALIASED_ARG); const T &r = (*c())[(int)i]; int w = m[i]; LIB(c()->resize(x, r)); m.resize(x, w); break; }
        case 9: { int d = (int)(a % 5); { LibScope ls; for (auto it = c()->begin(); it != c()->end(); ++it) *it = Val<T>::mk((vo(*it) + d) % (int)MaxVal<T>::v); } for (int &v : m) v = (v + d) % (int)MaxVal<T>::v; break; }
        case 10: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.size() < (size_t)this->cap; i++) kop(0, a + i * 7, b); break; }
        case 11: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.empty(); i++) kop(2, a, b); break; }
        case 12: { size_t x = 1 + b % (u32)this->cap; T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); B::destroy(); LIB(new (mem) C(x, v)); this->alive = true; m.assign(x, w); break; }
        }
    }
};

template <class C, class T> struct KDeque : KBase<KDeque<C, T>, C, Seq> {
    typedef KBase<KDeque<C, T>, C, Seq> B; using B::m; using B::c;
    static Seq fresh(int) { return Seq(); }
    static size_t model_size(const Seq &s) { return s.size(); }
    static const OpInfo *ops(int &n) {
        static const OpInfo t[] = {{"push_back", 18}, {"push_front", 18}, {"push", 5}, {"pop_back", 12}, {"pop_front", 12}, {"pop", 5}, {"push_back_own", 3}, {"push_front_own", 3}, {"bulk_push_back", 4}, {"bulk_push_front", 4}, {"bulk_pop_back", 4}, {"bulk_pop_front", 4}, {"slide", 3}};
        n = sizeof t / sizeof *t; return t;
    }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); o.put(x.capacity() >= x.size());
        if (n > (1u << 24)) return;
        obs_forward(x, o, n);
        if (this->light == 0 || n < 24) { obs_forward_post(x, o, n); obs_backward(x, o, n); obs_backward_post(x, o, n); obs_index(x, o, n); obs_jumps(x, o, n); }
        if (n) { o.put(vo(x.front())); o.put(vo(x.back())); }
        o.put(MK_END);
    }
    void mobs(const Seq &s, Obs &o) {
        size_t n = s.size(); o.put((i64)n); o.put(s.empty()); o.put(1);
        mobs_forward(s, o);
        if (this->light == 0 || n < 24) { mobs_forward(s, o); mobs_backward(s, o); mobs_backward(s, o); mobs_index(s, o); mobs_jumps(s, o); }
        if (n) { o.put(s.front()); o.put(s.back()); }
        o.put(MK_END);
    }
    void kop(int k, u32 a, u32 b) {
        size_t n = m.size();
        if (n >= (size_t)this->cap && (k <= 2 || (k >= 6 && k <= 9))) k = 10 + (k & 1);
        if (!n && ((k >= 3 && k <= 7) || k == 10 || k == 11)) k = k & 1;
        switch (k) {
        case 0: { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push_back(v)); m.push_back(w); break; }
        case 1: { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push_front(v)); m.insert(m.begin(), w); break; }
        case 2: { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push(v)); m.push_back(w); break; }
        case 3: LIB(c()->pop_back()); m.pop_back(); break;
        case 4: LIB(c()->pop_front()); m.erase(m.begin()); break;
        case 5: LIB(c()->pop()); m.erase(m.begin()); break;
        case 6: { size_t i = b % n; count(F_ALIASED_ARG); const C &k2 = *c(); int w = m[i]; LIB(c()->push_back(k2[(int)i])); m.push_back(w); break; }
        case 7: { size_t i = b % n; count(F_ALIASED_ARG); const C &k2 = *c(); int w = m[i]; LIB(c()->push_front(k2[(int)i])); m.insert(m.begin(), w); break; }
        case 8: case 9: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.size() < (size_t)this->cap; i++) kop(k - 8, a + i * 7, b); break; }
        case 10: case 11: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.empty(); i++) kop(k - 7, a, b); break; }
        case 12: { u32 x = 1 + b % (u32)(2 * this->bulk); bool f = a & 1; for (u32 i = 0; i < x; i++) { kop(f ? 0 : 1, a + i, b); if (m.size() > 1 + (a >> 1) % 3) kop(f ? 4 : 3, a, b); } break; }
        }
    }
};

// Queue: FIFO adapter
template <class C, class T, bool INDEX> struct KQueue : KBase<KQueue<C, T, INDEX>, C, Seq> {
    typedef KBase<KQueue<C, T, INDEX>, C, Seq> B; using B::m; using B::c;
    static Seq fresh(int) { return Seq(); }
    static size_t model_size(const Seq &s) { return s.size(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"push", 30}, {"pop", 25}, {"bulk_push", 6}, {"bulk_pop", 6}, {"slide", 4}, {"drain", 1}, {"push_own", 3}}; n = sizeof t / sizeof *t; return t; }
    template <class CC> static void index(CC &, Obs &, size_t, std::false_type) {}
    template <class CC> static void index(CC &x, Obs &o, size_t n, std::true_type) { obs_index(const_cast<C &>(x), o, n); }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); if (n > (1u << 24)) return;
        obs_forward(x, o, n); if (INDEX && (this->light == 0 || n < 24)) index(x, o, n, std::integral_constant<bool, INDEX>());
        if (n) { o.put(vo(x.front())); o.put(vo(x.back())); } o.put(MK_END);
    }
    void mobs(const Seq &s, Obs &o) {
        o.put((i64)s.size()); o.put(s.empty()); mobs_forward(s, o); if (INDEX && (this->light == 0 || s.size() < 24)) mobs_index(s, o);
        if (!s.empty()) { o.put(s.front()); o.put(s.back()); } o.put(MK_END);
    }
    void do_clear() { drain(); }
    void drain() { while (!m.empty()) pop1(); }
    void pop1() { int got; { LibScope ls; got = vo(c()->front()); c()->pop(); } if (this->judge_model && got != m[0]) fail("order", "%s delivered %d, expected %d", this->ki->name, got, m[0]); log_u64((u64)got); m.erase(m.begin()); }
    void push1(u32 a) { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push(v)); m.push_back(w); }
    void kop(int k, u32 a, u32 b) {
        if (m.size() >= (size_t)this->cap && (k == 0 || k == 2)) k++;
        if (m.size() >= (size_t)this->cap && k == 6) k = 1;
        if (m.empty() && (k == 1 || k == 3 || k == 5 || k == 6)) k = 0;
        switch (k) {
        case 0: push1(a); break;
        case 1: pop1(); break;
        case 2: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.size() < (size_t)this->cap; i++) push1(a + i); break; }
        case 3: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.empty(); i++) pop1(); break; }
        case 4: { u32 x = 1 + b % (u32)(2 * this->bulk); for (u32 i = 0; i < x; i++) { push1(a + i); if (m.size() > 1 + a % 3) pop1(); } break; }
        case 5: drain(); break;
        case 6: { size_t i = b % m.size(); count(F_ALIASED_ARG); { LibScope ls; auto it = c()->begin(); for (size_t j = 0; j < i; j++) ++it; c()->push(*it); } int w = m[i]; m.push_back(w); break; }
        }
    }
};

// Stack: LIFO adapter
template <class C, class T> struct KStack : KBase<KStack<C, T>, C, Seq> {
    typedef KBase<KStack<C, T>, C, Seq> B; using B::m; using B::c;
    static Seq fresh(int) { return Seq(); }
    static size_t model_size(const Seq &s) { return s.size(); }
    static const OpInfo *ops(int &n) { static const OpInfo t[] = {{"push", 30}, {"pop", 22}, {"bulk_push", 6}, {"bulk_pop", 6}, {"drain", 1}, {"push_own", 3}}; n = sizeof t / sizeof *t; return t; }
    template <class CC> void obs(CC &x, Obs &o) {
        size_t n = (size_t)x.size(); o.put((i64)n); o.put(x.empty()); if (n > (1u << 24)) return;
        obs_forward(x, o, n); if (n) o.put(vo(x.top())); o.put(MK_END);
    }
    void mobs(const Seq &s, Obs &o) { o.put((i64)s.size()); o.put(s.empty()); mobs_forward(s, o); if (!s.empty()) o.put(s.back()); o.put(MK_END); }
    void pop1() { int got; { LibScope ls; got = vo(c()->top()); c()->pop(); } if (this->judge_model && got != m.back()) fail("order", "%s delivered %d, expected %d", this->ki->name, got, m.back()); log_u64((u64)got); m.pop_back(); }
    void push1(u32 a) { T v = Val<T>::mk(NEWVAL(a)); int w = vo(v); LIB(c()->push(v)); m.push_back(w); }
    void kop(int k, u32 a, u32 b) {
        if (m.size() >= (size_t)this->cap && (k == 0 || k == 2)) k++;
        if (m.size() >= (size_t)this->cap && k == 5) k = 1;
        if (m.empty() && (k == 1 || k == 3 || k == 4 || k == 5)) k = 0;
        switch (k) {
        case 0: push1(a); break;
        case 1: pop1(); break;
        case 2: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && m.size() < (size_t)this->cap; i++) push1(a + i); break; }
        case 3: { u32 x = 1 + b % (u32)this->bulk; for (u32 i = 0; i < x && !m.empty(); i++) pop1(); break; }
        case 4: while (!m.empty()) pop1(); break;
        case 5: { size_t i = b % m.size(); count(F_ALIASED_ARG); { LibScope ls; auto it = c()->begin(); for (size_t j = 0; j < i; j++) ++it; c()->push(*it); } int w = m[i]; m.push_back(w); break; }
        }
    }
};

// ---------------------------------------------------------------- comparators with state
struct CmpStats { static u64 &calls() { static u64 n; return n; } };
template <class T> struct DirCmp {   // direction chosen at run time; the state travels with the container
    int dir;
    explicit DirCmp(int d = 1) : dir(d) {}
    bool operator()(const T &a, const T &b) const { CallbackScope c; return dir == 1 ? a < b : dir == -1 ? b < a : false; }
};
template <class CMP, class T> struct CmpDir { static int of(int) { return 1; } static CMP mk(int) { return CMP(); } };
template <class T> struct CmpDir<dstruct::greater<T>, T> { static int of(int) { return -1; } static dstruct::greater<T> mk(int) { return dstruct::greater<T>(); } };
template <class T> struct CmpDir<DirCmp<T>, T> { static int of(int v) { return v & 1 ? -1 : 1; } static DirCmp<T> mk(int v) { return DirCmp<T>(v & 1 ? -1 : 1); } };
template <class CMP> struct Stateful { enum { v = 0 }; };
template <class T> struct Stateful<DirCmp<T> > { enum { v = 1 }; };
// comparators that look at a part of the element: distinct elements can be equivalent
template <class T> struct TieCmp { bool operator()(const T &a, const T &b) const { CallbackScope c; return (vo(a) >> 2) < (vo(b) >> 2); } };
template <class T> struct TieDown { bool operator()(const T &a, const T &b) const { CallbackScope c; return (vo(b) >> 2) < (vo(a) >> 2); } };
template <class T> struct CmpDir<TieDown<T>, T> { static int of(int) { return -1; } static TieDown<T> mk(int) { return TieDown<T>(); } };
template <class CMP> struct CmpKey { enum { ties = 0 }; static int of(int v) { return v; } };
template <class T> struct CmpKey<TieCmp<T> > { enum { ties = 1 }; static int of(int v) { return v >> 2; } };
template <class T> struct CmpKey<TieDown<T> > : CmpKey<TieCmp<T> > {};
}
#endif
