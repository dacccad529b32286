// Simulated heap (the allocator seam) and tracked element type.
#ifndef SIM_HEAP_HPP
#define SIM_HEAP_HPP
#include "core.hpp"

extern "C" { void *sim_malloc(unsigned long); void sim_free(void *); void *sim_calloc(unsigned long, unsigned long); void *sim_realloc(void *, unsigned long); }
namespace std { using ::sim_malloc; using ::sim_free; using ::sim_calloc; using ::sim_realloc; }

namespace sim {
enum { DOM_DEFAULT = 15 };
enum Place { PL_BUMP, PL_LIFO, PL_FIFO, PL_RANDOM, PL_DESC, PL_DESC_LIFO, PL_FIRSTFIT, NPLACE };
enum Fill { FILL_ZERO, FILL_FF, FILL_CD, FILL_RANDOM, FILL_STALE, NFILL };
struct HeapCfg { int place, fresh, freed, redzone, align8; u64 seed; bool judge_storage, judge_elem, count_elem; };
struct Heap {
    HeapCfg cfg; Rng rng;
    u64 live_bytes, peak_bytes, live_blocks, n_alloc, n_free;
    u64 fail_at;                  // n_alloc index refused (0: never)
    bool refused;                 // a refusal was delivered
    u64 dom_calls[16];
    u64 obs;                      // hash of the request sequence (sizes only)
    int expect_dom;               // -1: any
    u64 foreign_new;              // operator new calls made by library code
    Rng frng;                     // fresh contents (kept apart from placement)
    Heap() : rng(1), expect_dom(-1), foreign_new(0), frng(1) {}
};
extern Heap heap;
void heap_map(bool small);                       // once, before any fork
void heap_init(const HeapCfg &c);                // per run
void *heap_alloc(int dom, long bytes);
void heap_free(int dom, void *p, long bytes);    // bytes < 0: size unknown (free)
void obj_check(const char *when);                // nothing is written around the container objects
void heap_check(const char *when);               // canaries of every block, freed storage untouched
std::vector<std::pair<char *, char *> > live_blocks();   // sorted
bool heap_owns(const void *p, size_t n);         // inside one live block
long heap_block_bytes(const void *p);            // size of the live block starting at p, or -1
void *obj_alloc(size_t n);                       // storage for container objects themselves (canaries around it)
u64 out_elems();                                 // live tracked elements outside heap blocks
u64 heap_elems();                                // live tracked elements inside heap blocks

template <int D> struct SimAlloc {
    static void *allocate(int bytes) { return heap_alloc(D, bytes); }
    static void deallocate(void *p, int bytes) { heap_free(D, p, bytes); }
};

// tracked element
void elem_born(const void *p, unsigned size); void elem_dies(const void *p, unsigned size); void elem_used(const void *p, const char *how);
extern bool g_track;
extern u64 g_elem_live, g_elem_ops;
struct CallbackScope { bool o; CallbackScope() : o(g_in_callback) { g_in_callback = true; } ~CallbackScope() { g_in_callback = o; } };
enum { ELEM_MAGIC = 0x5eed1e37 };
// KIND 0: copies only; 1: a move leaves the source without its value; 2: aligned to 16
template <int PAD, int KIND = 0> struct alignas(KIND == 2 ? 16 : 8) Elem {
    const Elem *self; int val; unsigned magic; char pad[PAD];
    Elem() { init(0); }
    explicit Elem(int v) { init(v); }
    Elem(const Elem &o) { CallbackScope c; int v = o.read("copied"); init(v); }
    Elem &operator=(const Elem &o) { CallbackScope c; int v = o.read("copied"); if (g_track) elem_used(this, "assigned to"); magic = 0xb5b5; val = -77779; self = this; val = v; stamp(); magic = ELEM_MAGIC; return *this; }   // between the two writes of magic the element is in flux, as one that owns memory would be
    Elem(Elem &&o) { CallbackScope c; int v = o.read("moved"); init(v); o.gut(); }
    Elem &operator=(Elem &&o) { const Elem &k = o; *this = k; CallbackScope c; o.gut(); return *this; }
    ~Elem() { CallbackScope c; if (g_track) elem_dies(this, sizeof *this); self = 0; magic = 0xdead; val = -99991; }
    int get() const { return read("read"); }
    bool operator<(const Elem &o) const { CallbackScope c; return read("compared") < o.read("compared"); }
    bool operator>(const Elem &o) const { CallbackScope c; return read("compared") > o.read("compared"); }
    bool operator==(const Elem &o) const { CallbackScope c; return read("compared") == o.read("compared"); }
    bool operator!=(const Elem &o) const { CallbackScope c; return read("compared") != o.read("compared"); }
private:
    void gut() { if (KIND == 1) { val = -66666; stamp(); } }
    void stamp() { for (int i = 0; i < PAD; i++) pad[i] = (char)(val * 31 + i); }
    void init(int v) { if (g_track) elem_born(this, sizeof *this); self = this; magic = ELEM_MAGIC; val = v; stamp(); g_elem_ops++; }
    int read(const char *how) const {
        if (g_track) elem_used(this, how);
        if (KIND == 2 && ((u64)this & 15)) return -77775;
        if (self != this || magic != ELEM_MAGIC) return -77777;                       // not a live element: visible garbage
        for (int i = 0; i < PAD; i += 7) if (pad[i] != (char)(val * 31 + i)) return -77778; // torn
        return val;
    }
};
// how a run represents the models' numbers in arithmetic element types
struct Codec { int mode, k1, k2, top; };
inline const Codec *codec() { return (const Codec *)0x228000000000ull; }
void codec_set(int mode, int domain);
int codec_mk(int v); int codec_of(int t);
typedef Elem<8> E24; typedef Elem<40> E56; typedef Elem<104> E120; typedef Elem<8, 1> M24; typedef Elem<16, 2> A32;
}
#endif
