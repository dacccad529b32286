#include <climits>
#include "heap.hpp"
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#define NOASAN __attribute__((no_sanitize_address))
extern "C" const char *__asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0:use_sigaltstack=0:exitcode=66:symbolize=0:detect_stack_use_after_return=0:allocator_may_return_null=1:halt_on_error=1"; }
extern "C" void __asan_on_error() {}
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#define NOASAN
#endif

namespace sim {
Heap heap;
bool g_track; u64 g_elem_live, g_elem_ops;

static char *const BASE = (char *)0x200000000000ull;
static size_t REGION;
static u32 *const SHADOW = (u32 *)0x210000000000ull;   // one word per 8 bytes: 1 when a tracked element lives there
struct Blk { long bytes, total; int dom; };
static std::unordered_map<u64, Blk> *g_live;            // by user offset
struct Freed { u64 off; long total; };
static std::map<long, std::vector<Freed> > *g_free;     // by total size
static std::map<u64, u64> *g_ext;                       // first-fit extents (offset, length)
static std::vector<Freed> *g_quar;                      // every freed, not reused block (freed contents verified)
static u64 g_top, g_bot, g_last_freed;
static std::unordered_map<u64, unsigned> *g_out_elems;  // tracked elements outside the heap region

static void *const OBJ_AT = (void *)0x220000000000ull;
void heap_map(bool small) {
    REGION = small ? (32u << 20) : (512u << 20);
    void *m = mmap(BASE, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    void *s = mmap(SHADOW, REGION / 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (mmap((void *)codec(), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("codec"); exit(3); }
    void *ob = mmap(OBJ_AT, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (m == MAP_FAILED || s == MAP_FAILED || ob == MAP_FAILED) { perror("heap map"); exit(3); }
    POISON(BASE, REGION);
    g_live = new std::unordered_map<u64, Blk>(); g_free = new std::map<long, std::vector<Freed> >(); g_ext = new std::map<u64, u64>(); g_quar = new std::vector<Freed>();
    g_out_elems = new std::unordered_map<u64, unsigned>();
}
// below the domain: up to three clusters, in order, at the low end of int, around zero and at the high end; everything else lies apart
void codec_set(int mode, int domain) {
    Codec *c = const_cast<Codec *>(codec()); c->mode = mode; c->top = domain ? domain < 4 ? 4 : domain : 1 << 21; int d = domain ? c->top : 30;
    switch (mode) { case 1: c->k1 = 0; c->k2 = c->top; break; case 2: c->k1 = d / 3; c->k2 = d - d / 3; break; case 3: c->k1 = c->k2 = c->top; break; case 4: c->k1 = c->k2 = 0; break; default: c->k1 = d / 2; c->k2 = d / 2; }
}
static int codec_mid(const Codec *c) { return c->k1 + std::min(c->k2 - c->k1, 40) / 2; }
int codec_mk(int v) { const Codec *c = codec(); if (v < 0 || v >= c->top) return (1 << 25) + v; return v < c->k1 ? INT_MIN + v : v < c->k2 ? v - codec_mid(c) : INT_MAX - (c->top - 1 - v); }
int codec_of(int t) {
    const Codec *c = codec(); long r = (long)t - INT_MIN; if (r >= 0 && r < c->k1) return (int)r;
    r = (long)t + codec_mid(c); if (r >= c->k1 && r < c->k2) return (int)r;
    r = (long)t - INT_MAX + (c->top - 1); if (r >= c->k2 && r < c->top) return (int)r;
    r = (long)t - (1 << 25); if (r > -4096 && r < (1 << 29) && (r < 0 || r >= c->top)) return (int)r;
    return -88000000 + t % 100000;   // no value the simulator made
}
void heap_init(const HeapCfg &c) {
    heap.cfg = c; heap.rng = Rng(c.seed); heap.frng = Rng(mix(c.seed, (u64)c.fresh)); heap.expect_dom = -1; heap.foreign_new = 0;
    heap.live_bytes = heap.peak_bytes = heap.live_blocks = heap.n_alloc = heap.n_free = heap.fail_at = 0; heap.refused = false; heap.obs = 1;
    memset(heap.dom_calls, 0, sizeof heap.dom_calls);
    g_live->clear(); g_free->clear(); g_ext->clear(); g_quar->clear(); g_out_elems->clear();
    g_top = 4096; g_bot = REGION - 4096; g_last_freed = ~0ull;
    if (c.place == PL_FIRSTFIT) (*g_ext)[g_top] = g_bot - g_top;
    g_own_lo = (char *)&g_elem_ops; g_own_hi = g_own_lo + sizeof g_elem_ops; g_track = c.judge_elem || c.count_elem; g_elem_live = 0;
}
static inline bool in_region(const void *p) { return (char *)p >= BASE && (char *)p < BASE + REGION; }

NOASAN static void fill(char *p, long n, int how, bool freed) {
    switch (how) {
    case FILL_ZERO: memset(p, 0, n); break;
    case FILL_FF: memset(p, 0xff, n); break;
    case FILL_CD: memset(p, freed ? 0xdd : 0xcd, n); break;
    case FILL_RANDOM: for (long i = 0; i < n; i++) p[i] = (char)heap.frng.next(); break;
    default: break;
    }
}
NOASAN static bool all(const char *p, long n, unsigned char v) { for (long i = 0; i < n; i++) if ((unsigned char)p[i] != v) return false; return true; }

static u64 place(long total) {
    // returns the offset of a block of `total` bytes (multiple of 8)
    auto bump = [&]() -> u64 { if (g_top + total > g_bot) return 0; u64 o = g_top; g_top += total; return o; };
    auto down = [&]() -> u64 { if (g_top + total > g_bot) return 0; g_bot -= total; count(F_ADDR_DESCENDING); return g_bot; };
    auto reuse = [&](int how) -> u64 {
        auto it = g_free->find(total); if (it == g_free->end() || it->second.empty()) return 0;
        auto &v = it->second; size_t i = how == 0 ? v.size() - 1 : how == 1 ? 0 : heap.rng.below((u32)v.size());
        u64 o = v[i].off; v.erase(v.begin() + (long)i);
        count(F_ADDR_REUSED); if (o == g_last_freed) count(F_ADDR_REUSED_AT_ONCE);
        return o;
    };
    u64 o = 0;
    switch (heap.cfg.place) {
    case PL_BUMP: o = bump(); break;
    case PL_LIFO: o = reuse(0); if (!o) o = bump(); break;
    case PL_FIFO: o = reuse(1); if (!o) o = bump(); break;
    case PL_RANDOM: if (heap.rng.chance(1, 2)) o = reuse(2); if (!o) o = heap.rng.chance(1, 3) ? down() : bump(); break;
    case PL_DESC: o = down(); break;
    case PL_DESC_LIFO: o = reuse(0); if (!o) o = down(); break;
    case PL_FIRSTFIT:
        for (auto it = g_ext->begin(); it != g_ext->end(); ++it) if (it->second >= (u64)total) {
            o = it->first; u64 len = it->second; g_ext->erase(it);
            if (len > (u64)total) (*g_ext)[o + total] = len - total;
            if (o == g_last_freed) count(F_ADDR_REUSED_AT_ONCE);
            if (o < g_top) count(F_ADDR_REUSED); else g_top = o + total;
            return o;
        }
        return 0;
    }
    if (!o) o = reuse(2);
    return o;
}

void *heap_alloc(int dom, long bytes) {
    Atomic at; bool lib = g_in_lib; g_in_lib = false;
    heap.n_alloc++; heap.dom_calls[dom]++; count(F_ALLOC);
    heap.obs = mix(heap.obs, mix((u64)bytes, 0xa110c));
    if (heap.fail_at && heap.n_alloc == heap.fail_at) { heap.refused = true; count(F_ALLOC_REFUSED); log_u64(0xfa11); g_in_lib = lib; return 0; }
    if (heap.cfg.judge_storage && heap.expect_dom >= 0 && dom != heap.expect_dom) fail("wrong-allocator", "a container given allocator %d obtained %ld bytes from allocator %d", heap.expect_dom, bytes, dom);
    if (bytes < 0 || (u64)bytes > REGION / 4) {
        if (heap.cfg.judge_storage) fail("bad-request", "a request for %ld bytes", bytes);
        g_in_lib = lib; return 0;
    }
    long rz = heap.cfg.redzone;
    long user = (bytes + 7) / 8 * 8; if (!user) user = 8;
    long total = user + 2 * rz; if (!heap.cfg.align8) total = (total + 15) / 16 * 16;
    u64 off = place(total);
    if (!off) { if (heap.live_bytes > REGION / 4) fail("runaway-memory", "%llu bytes are held and more is requested", (unsigned long long)heap.live_bytes); harness_error("simulated heap exhausted"); }
    char *p = BASE + off + rz;
    if (heap.cfg.align8 && ((u64)p & 15) == 8) count(F_ADDR_ODD8);
    UNPOISON(BASE + off, total);
    if (g_track) for (u64 i = (off) / 8; i < (off + total) / 8; i++) if (SHADOW[i]) { if (SHADOW[i] == 1 && heap.cfg.judge_elem) fail("element", "storage handed out again still holds a live element"); SHADOW[i] = 0; }
    fill(p, user, heap.cfg.fresh, false);
    count(heap.cfg.fresh == FILL_STALE ? F_FRESH_STALE : F_FRESH_JUNK);
    if (rz) { memset(BASE + off, 0xa5, rz); memset(p + user, 0xa5, total - rz - user); }
    if (bytes < user) memset(p + bytes, 0xa5, user - bytes);
    POISON(BASE + off, rz); POISON(p + bytes, total - rz - bytes);
    Blk b = {bytes, total, dom}; (*g_live)[off + rz] = b;
    heap.live_bytes += bytes; heap.live_blocks++; if (heap.live_bytes > heap.peak_bytes) heap.peak_bytes = heap.live_bytes;
    log_u64(off);
    g_in_lib = lib;
    return p;
}
NOASAN static void check_canary(u64 uoff, const Blk &b, const char *when) {
    long rz = heap.cfg.redzone; char *p = BASE + uoff;
    UNPOISON(p - rz, b.total);
    if (!all(p - rz, rz, 0xa5)) fail("out-of-bounds-write", "bytes before a block of %ld bytes were overwritten (%s)", b.bytes, when);
    if (!all(p + b.bytes, b.total - rz - b.bytes, 0xa5)) fail("out-of-bounds-write", "bytes after a block of %ld bytes were overwritten (%s)", b.bytes, when);
    POISON(p - rz, rz); POISON(p + b.bytes, b.total - rz - b.bytes);
}
void heap_free(int dom, void *ptr, long bytes) {
    if (!ptr && dom == DOM_DEFAULT) return;
    Atomic at; bool lib = g_in_lib; g_in_lib = false;
    bool judge = heap.cfg.judge_storage;
    heap.obs = mix(heap.obs, mix((u64)bytes, 0xf4ee));
    heap.n_free++; count(F_FREE);
    u64 off = (u64)((char *)ptr - BASE);
    auto it = in_region(ptr) ? g_live->find(off) : g_live->end();
    if (it == g_live->end()) { if (judge) fail("bad-release", ptr ? "release of an address that is not a live block (released twice, or never allocated)" : "release of a null pointer"); g_in_lib = lib; return; }
    Blk b = it->second;
    if (judge && b.dom != dom) fail("wrong-allocator", "a block of allocator %d returned to allocator %d", b.dom, dom);
    if (judge && bytes >= 0 && b.bytes != bytes) fail("wrong-size", "a block of %ld bytes returned with size %ld", b.bytes, bytes);
    if (judge) check_canary(off, b, "at release");
    char *p = BASE + off; long rz = heap.cfg.redzone;
    if (g_track) for (u64 i = off / 8; i < (off + b.bytes + 7) / 8; i++) if (SHADOW[i]) { if (SHADOW[i] == 1) { if (heap.cfg.judge_elem) fail("element", "a block is released while an element in it is still live"); g_elem_live--; } SHADOW[i] = 0; }
    UNPOISON(p - rz, b.total);
    fill(p, (b.bytes + 7) / 8 * 8, heap.cfg.freed, true);
    if (heap.cfg.freed != FILL_STALE) count(F_FREED_SCRAMBLED);
    POISON(p - rz, b.total);
    g_live->erase(it);
    heap.live_bytes -= b.bytes; heap.live_blocks--;
    u64 boff = off - rz; g_last_freed = boff;
    if (heap.cfg.place == PL_FIRSTFIT) {
        u64 s = boff, len = b.total;
        auto n = g_ext->lower_bound(s);
        if (n != g_ext->end() && n->first == s + len) { len += n->second; n = g_ext->erase(n); }
        if (n != g_ext->begin()) { auto q = n; --q; if (q->first + q->second == s) { s = q->first; len += q->second; g_ext->erase(q); } }
        (*g_ext)[s] = len;
    } else { Freed f = {boff, b.total}; (*g_free)[b.total].push_back(f); }
    g_in_lib = lib;
}
// container objects
static char *const OBJ = (char *)0x220000000000ull; enum { OBJ_REGION = 1 << 20, OBJ_RZ = 128 };
static u64 g_obj_top; static std::vector<std::pair<u64, u64> > *g_objs;
// no two places between the objects hold the same bytes
NOASAN static bool obj_guard(char *p, char *e, bool set) {
    for (; p < e; p++) { char v = (char)(mix((u64)p >> 3, 0xb6b6b6b6b6b6b6ull) >> 8 * ((u64)p & 7) | 1); if (set) *p = v; else if (*p != v) return false; }
    return true;
}
void *obj_alloc(size_t n) {
    size_t up = (n + 15) / 16 * 16;
    if (!g_objs) g_objs = new std::vector<std::pair<u64, u64> >();
    if (g_obj_top + up + 2 * OBJ_RZ > OBJ_REGION) harness_error("object region exhausted");
    char *p = OBJ + g_obj_top + OBJ_RZ; g_obj_top += up + OBJ_RZ;
    UNPOISON(p - OBJ_RZ, up + 2 * OBJ_RZ); obj_guard(p - OBJ_RZ, p, true); obj_guard(p + n, p + up + OBJ_RZ, true); POISON(p + n, up - n + OBJ_RZ); POISON(p - OBJ_RZ, OBJ_RZ);
    g_objs->push_back(std::make_pair((u64)(p - OBJ), (u64)n));
    return p;
}
NOASAN void obj_check(const char *when) {
    if (g_objs) for (auto &e : *g_objs) {
        char *p = OBJ + e.first, *q = p + e.second, *z = p + (e.second + 15) / 16 * 16 + OBJ_RZ; UNPOISON(p - OBJ_RZ, OBJ_RZ); UNPOISON(q, z - q);
        if (!obj_guard(p - OBJ_RZ, p, false) || !obj_guard(q, z, false)) fail("out-of-bounds-write", "bytes around a container object were overwritten (%s)", when);
        POISON(p - OBJ_RZ, OBJ_RZ); POISON(q, z - q);
    }
}
NOASAN void heap_check(const char *when) {
    obj_check(when);
    for (auto &e : *g_live) check_canary(e.first, e.second, when);
    if (heap.cfg.freed == FILL_CD && heap.cfg.place != PL_FIRSTFIT)
        for (auto &c : *g_free) for (auto &f : c.second) {
            long rz = heap.cfg.redzone; char *p = BASE + f.off;
            UNPOISON(p, f.total);
            // payload is 0xdd up to the rounded size, then canary
            long i = rz; while (i < f.total - rz && (unsigned char)p[i] == 0xdd) i++;
            while (i < f.total && (unsigned char)p[i] == 0xa5) i++;
            if (i != f.total) fail("write-after-free", "released storage was written to (%s)", when);
            POISON(p, f.total);
        }
}
std::vector<std::pair<char *, char *> > live_blocks() { std::vector<std::pair<char *, char *> > v; for (auto &e : *g_live) v.push_back(std::make_pair(BASE + e.first, BASE + e.first + e.second.bytes)); std::sort(v.begin(), v.end()); return v; }
bool heap_owns(const void *q, size_t n) {
    if (!in_region(q)) return false;
    u64 o = (u64)((char *)q - BASE);
    for (auto &e : *g_live) if (o >= e.first && o + n <= e.first + (u64)e.second.bytes) return true;
    return false;
}
long heap_block_bytes(const void *p) { if (!in_region(p)) return -1; auto it = g_live->find((u64)((char *)p - BASE)); return it == g_live->end() ? -1 : it->second.bytes; }
u64 out_elems() { return g_out_elems->size(); }
u64 heap_elems() { return g_elem_live; }

// ---------------------------------------------------------------- elements (shadow word: 0 nothing since the block was handed out, 1 a live element, 2 one that is gone)
static inline bool is_fresh(const void *p) { return ((uintptr_t)p & 7) == 0 && SHADOW[((char *)p - BASE) / 8] == 0 && g_live->size() && heap_owns(p, 8); }
static inline bool tracked_at(const void *p, bool &region) {
    region = in_region(p);
    if (region) return SHADOW[((char *)p - BASE) / 8] == 1;
    return g_out_elems->count((u64)p) != 0;
}
void elem_born(const void *p, unsigned size) {
    Atomic at; bool lib = g_in_lib; g_in_lib = false; bool reg; bool live = tracked_at(p, reg);
    if (live && heap.cfg.judge_elem) fail("element", "an element is constructed over a live one, which is never destroyed");
    if (reg) { if (heap.cfg.judge_elem && !heap_owns(p, size) ) fail("element", "an element is constructed outside the storage the container holds"); if (!live) g_elem_live++; SHADOW[((char *)p - BASE) / 8] = 1; }
    else (*g_out_elems)[(u64)p] = size;
    g_in_lib = lib;
}
void elem_dies(const void *p, unsigned) {
    Atomic at; bool lib = g_in_lib; g_in_lib = false; bool reg; bool live = tracked_at(p, reg);
    if (!live && heap.cfg.judge_elem) fail("element", "destruction of storage that holds no live element");
    if (!live && reg && heap.cfg.judge_storage && is_fresh(p)) fail("fresh-contents", "an element is destroyed in fresh storage, where none was constructed");
    if (reg) { if (live) g_elem_live--; SHADOW[((char *)p - BASE) / 8] = 2; } else g_out_elems->erase((u64)p);
    g_in_lib = lib;
}
void elem_used(const void *p, const char *how) {
    if (!heap.cfg.judge_elem && !heap.cfg.judge_storage) return;
    Atomic at; bool lib = g_in_lib; g_in_lib = false; bool reg; bool live = tracked_at(p, reg);
    if (!live && !heap.cfg.judge_elem) { if (reg && is_fresh(p)) fail("fresh-contents", "fresh storage, where no element was constructed, is %s as if it held one", how); g_in_lib = lib; return; }
    if (!live) fail("element", "storage that holds no live element is %s", how);
    g_in_lib = lib;
}
}
extern "C" {
void *sim_malloc(unsigned long n) { return sim::heap_alloc(sim::DOM_DEFAULT, (long)n); }
void sim_free(void *p) { sim::heap_free(sim::DOM_DEFAULT, p, -1); }
void *sim_calloc(unsigned long a, unsigned long b) { void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *sim_realloc(void *p, unsigned long n) { void *q = sim_malloc(n); if (p && q) { long o = sim::heap_block_bytes(p); memcpy(q, p, (size_t)(o < (long)n ? o : (long)n)); sim_free(p); } return q; }
}

// library code is not expected to reach the global operator new; when it does it is counted
static void *count_new(std::size_t n) { if (sim::g_in_lib && !sim::g_no_preempt) sim::heap.foreign_new++; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
#if !defined(__SANITIZE_ADDRESS__)
void *operator new(std::size_t n) { return count_new(n); }
void *operator new[](std::size_t n) { return count_new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
#endif
