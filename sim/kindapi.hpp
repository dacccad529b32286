// Interface between container kinds (instrumented, include the library) and worlds (do not).
#ifndef SIM_KINDAPI_HPP
#define SIM_KINDAPI_HPP
#include "heap.hpp"
#include <type_traits>
namespace sim {
enum { OPF_RESERVE = 1, OPF_LONG = 2 };
struct OpInfo { const char *name; int w; int flags; };
enum GenOp { G_COPY_ASSIGN, G_COPY_CTOR, G_MOVE_ASSIGN, G_MOVE_CTOR, G_SELF_COPY, G_SELF_MOVE, G_RECREATE, G_COPY_TEMP, G_CLEAR, G_NUM };
extern const char *gen_name[G_NUM];

struct Obs {
    std::vector<i64> v;
    void put(i64 x) { bool l = g_in_lib; g_in_lib = false; v.push_back(x); g_in_lib = l; }
    u64 hash() const { u64 h = 17; for (i64 x : v) h = mix(h, (u64)x); return h; }
    std::string str() const {
        std::string s = "["; size_t n = 0;
        for (i64 x : v) { if (n++ > 48) { s += " ..."; break; } if (n > 1) s += " "; s += x == 1000000007 ? "fwd:" : x == 1000000008 ? "bwd:" : x == 1000000009 ? "idx:" : x == 1000000010 ? "end" : x == 1000000011 ? "RUNAWAY" : x == 1000000012 ? "trav:" : std::to_string(x); }
        return s + "]";
    }
};
struct Obj;
struct KindInfo {
    const char *name;      // e.g. Vector<E24>
    const char *family;    // vector, deque, queue, slist, dlist, stack, xstack, heap, bst, avl, map, uf, string
    Obj *(*make)();
    const OpInfo *(*ops)(int &n);
    size_t object_size, elem_size;
    int flags;
    int dom;               // allocator domain the kind was given
    long block_bytes;      // granularity of its storage (bytes), 0: one element
    int elems;             // tracked elements per element of the container
};
struct StaticArena { int (*free_size)(); int (*max_block)(); void (*merge)(); void *(*alloc)(int); bool (*release)(void *, int); };
extern StaticArena *static_arena;          // set by the static-memory kinds when they are linked in
struct PortSeam { void *(*alloc)(int); void (*release)(void *, int); };
extern PortSeam *port_seam;                // set by the static-memory-port kinds
void *port_alloc(int bytes); void port_free(void *p, int bytes);
enum { KF_STATIC = 1, KF_PORT = 1024, KF_NOCLEAR = 4, KF_HANDLES = 16, KF_ONE_SENTINEL = 32, KF_EXTREMES = 64, KF_NOELEM = 256, KF_BIGBLOCK = 512, KF_ALIGN16 = 2048, KF_NESTED = 4096 };
std::vector<KindInfo> &kinds();
struct RegKind { RegKind(KindInfo k) { kinds().push_back(k); } };

struct Obj {
    void *mem, *tmp; const KindInfo *ki; int task, slot;
    bool alive; int variant;
    int domain, cap, bulk, light; u32 next_val; u64 junk_seed;
    bool judge_model, judge_copies, judge_handles, judge_depth;
    Obj() : mem(0), tmp(0), ki(0), task(0), slot(0), alive(false), variant(0), domain(0), cap(16), bulk(8), light(0), next_val(0), junk_seed(0), judge_model(false), judge_copies(false), judge_handles(false), judge_depth(false) {}
    virtual ~Obj() {}
    virtual void create() = 0;
    virtual void destroy() = 0;
    virtual void dump(Obs &o) = 0;          // everything observable through the non-const API
    virtual void dump_const(Obs &o) = 0;    // the same through a const reference
    virtual void expect(Obs &o) = 0;        // what the model says dump must give
    virtual void generic(int g, u32 a, u32 b, Obj *peer) = 0;
    virtual void kind_op(int k, u32 a, u32 b) = 0;
    virtual size_t msize() = 0;
    virtual int cmp_variant() { return variant; }               // the variant a new object with the same comparator has
    virtual void handles_check(const char *) {}
    virtual void extra_check() {}           // structural checks (tree shape, balance, ...)
    virtual void reader_op(u32 a, void *scratch, Obs &o) = 0;   // one const operation; what it saw
    void junk(void *p, size_t n) { Rng r(junk_seed++); unsigned char *q = (unsigned char *)p; int k = (int)(junk_seed >> 32) % 3; for (size_t i = 0; i < n; i++) q[i] = k == 0 ? (unsigned char)r.next() : k == 1 ? 0xCC : 0; }
    void apply(int op, u32 a, u32 b, Obj *peer) { if (op < G_NUM) generic(op, a, b, peer); else { int n; ki->ops(n); kind_op((op - G_NUM) % n, a, b); } }
};
}
#endif
