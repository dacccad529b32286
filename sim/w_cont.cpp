// Container world: simulated tasks drive real containers over the simulated heap.
#include "kindapi.hpp"
#include "shadow.hpp"
#include <unistd.h>

namespace sim {
std::vector<KindInfo> &kinds() { static std::vector<KindInfo> v; return v; }
StaticArena *static_arena;
PortSeam *port_seam;
const char *gen_name[G_NUM] = {"copy_assign", "copy_construct", "move_assign", "move_construct", "self_copy_assign", "self_move_assign", "destroy_and_recreate", "temporary_copy", "clear"};

enum Cfg { C_TASKS, C_PLACE, C_FRESH, C_FREED, C_RZ, C_ALIGN8, C_DOMAIN, C_CAP, C_BULK, C_LIGHT, C_MODE, C_EVERY, C_SLOTS, C_SPARE, C_READERS, C_FRESH2, C_HOT, C_VALS, C_KIND0 };
enum { SLOTS = 4, MAXT = 7, OP_READ = 1000, OP_CHURN = 1001, OP_BALLAST = 1002 };
enum Oracle { O_MODEL, O_STORAGE, O_ELEM, O_REFUSE, O_ISOLATE, O_READERS, O_COPY, O_MOVE, O_MEMORY, O_STATIC, O_HANDLE, O_PORT };

struct CheckDef { const char *id; Oracle oracle; const char *families; };
static const CheckDef checks[] = {
    {"C04", O_PORT, "*"}, {"C05", O_STORAGE, "*"}, {"C06", O_ELEM, "*"}, {"C07", O_REFUSE, "*"}, {"C08", O_ISOLATE, "*"}, {"C09", O_READERS, "*"},
    {"C10", O_MODEL, "vector"}, {"C11", O_MODEL, "deque,queue"}, {"C12", O_MODEL, "slist,dlist"}, {"C13", O_MODEL, "stack,xstack"}, {"C14", O_MODEL, "heap"},
    {"C15", O_MODEL, "bst"}, {"C16", O_MODEL, "avl"}, {"C17", O_MODEL, "map"}, {"C18", O_MODEL, "uf"}, {"C19", O_MODEL, "string"},
    {"C20", O_COPY, "*"}, {"C21", O_MOVE, "*"}, {"C22", O_MEMORY, "*"}, {"C23", O_STATIC, "*"}, {"C24", O_HANDLE, "*"},
    {"C25", O_MODEL, "array"}, {"C26", O_MODEL, "ring"}, {"C27", O_MODEL, "range"}, {"C28", O_MODEL, "order"}, {"C30", O_MODEL, "btree"},
};
static const CheckDef &check_def(const std::string &c) { for (auto &d : checks) if (c == d.id) return d; fprintf(stderr, "unknown check %s\n", c.c_str()); exit(3); }
static bool in_list(const std::string &list, const std::string &f) {
    if (list == "*") return true;
    size_t p = 0; while (p <= list.size()) { size_t q = list.find(',', p); if (q == std::string::npos) q = list.size(); if (list.compare(p, q - p, f) == 0) return true; p = q + 1; }
    return false;
}
static bool eligible(const CheckDef &d, const KindInfo &k) {
    if (((k.flags & KF_STATIC) != 0) != (d.oracle == O_STATIC)) return false;
    if (((k.flags & KF_PORT) != 0) != (d.oracle == O_PORT)) return false;
    if (!in_list(d.families, k.family)) return false;
    if (!strcmp(d.families, "*")) {   // what holds no storage of its own
        if (!strcmp(k.family, "range") || !strcmp(k.family, "order")) return false;
        if (!strcmp(k.family, "array") && d.oracle != O_ISOLATE && d.oracle != O_READERS && d.oracle != O_COPY && d.oracle != O_STORAGE) return false;
        if (!strcmp(k.family, "btree") && (d.oracle == O_COPY || d.oracle == O_MOVE || d.oracle == O_MEMORY)) return false;   // left to subclasses
        if (!strcmp(k.family, "ring") && d.oracle != O_ISOLATE && d.oracle != O_READERS && d.oracle != O_STORAGE) return false;
    }
    if (d.oracle == O_ELEM && !k.elems) return false;
    if (d.oracle == O_HANDLE && !(k.flags & KF_HANDLES)) return false;
    if (d.oracle == O_MEMORY && (!strcmp(k.family, "uf") || (k.flags & KF_NESTED))) return false;
    return true;
}
static bool fam(const KindInfo &k, const char *f) { return !strcmp(k.family, f); }

// ---------------------------------------------------------------- the shared arena of the static-memory port
static Shadow g_arena; static long g_full_piece;       // largest piece released since no free memory was left
static bool stopped_alloc(int n, void *&p) { return run_stoppable([&] { LibScope l; p = port_seam->alloc(n); }) != 0; }
void *port_alloc(int n) {
    Atomic at; bool lib = g_in_lib; g_in_lib = false;
    long run = g_arena.largest(); void *p = 0;
    bool stop = stopped_alloc(n, p); g_in_lib = false; count(F_ALLOC);
    bool possible = n > 0 && Shadow::up(n) <= run;
    if (stop) {
        log_u64(0x570b);
        if (possible) fail("not-served", "the program stopped (%s) at a request for %d bytes though a contiguous run of %ld free bytes exists (%ld bytes free in all)", g_stop_desc, n, run, g_arena.size - g_arena.used);
        count(F_STOP_ON_EXHAUSTION); if (Shadow::up(n) <= g_arena.size - g_arena.used) count(F_ARENA_FRAGMENTED_REFUSAL); else count(F_ARENA_EXHAUSTED);
        finish_ok();
    }
    if (!p) fail("null-returned", "a request for %d bytes returned null to a container", n);
    const char *why = g_arena.add(p, n, g_cur_task, mix((u64)n, (u64)((char *)p - g_arena.base)));
    if (why) fail("bad-block", "a block of %d bytes %s", n, why);
    if (g_full_piece && Shadow::up(n) > g_full_piece) count(F_COMPACTION);
    log_u64((u64)((char *)p - g_arena.base));
    g_in_lib = lib; return p;
}
void port_free(void *p, int n) {
    Atomic at; bool lib = g_in_lib; g_in_lib = false; count(F_FREE);
    auto it = g_arena.live.find((char *)p); if (it == g_arena.live.end() || it->second.bytes != n) fail("bad-release", "a container released %d bytes that are not a live block", n);
    g_arena.remove(p); if (g_full_piece) g_full_piece = std::max(g_full_piece, Shadow::up(n));
    if (run_stoppable([&] { LibScope l; port_seam->release(p, n); })) fail("release-stopped", "the program stopped (%s) at the release of a live block of %d bytes", g_stop_desc, n);
    g_in_lib = lib;
}

// memory that existed when the readers started
static std::vector<std::pair<char *, char *> > shared_blocks; static char *shared_obj_end; static std::vector<std::pair<char *, char *> > reader_scratch;
static bool in_shared(const char *q) { if (shared_blocks.empty() || q < shared_blocks[0].first) return false; auto it = std::upper_bound(shared_blocks.begin(), shared_blocks.end(), std::make_pair((char *)q, (char *)~0ull)); --it; return q < it->second; }
static bool own_scratch(const char *q) { for (auto &e : reader_scratch) if (q >= e.first && q < e.second) return true; return false; }

struct ContWorld : World {
    std::vector<int> order;   // kinds sorted by name: link order does not matter
    ContWorld() { for (size_t i = 0; i < kinds().size(); i++) order.push_back((int)i); std::sort(order.begin(), order.end(), [](int a, int b) { return strcmp(kinds()[(size_t)a].name, kinds()[(size_t)b].name) < 0; }); }
    const KindInfo &kind_at(int i) { return kinds()[(size_t)order[(size_t)i]]; }
    const KindInfo *kind_of(const Plan &p, int t, int s) { int k = p.cfg[C_KIND0 + t * SLOTS + s]; return k ? &kind_at((k - 1) % (int)order.size()) : 0; }

    void warmup(const std::string &check) {
        cur_check = check;
        heap_map(check == "C05" || check == "C06");
        if (static_arena) static_arena->free_size();
    }

    // ------------------------------------------------------------ plan generation
    void gen(Plan &p, Rng &r, const std::string &check, bool thorough) {
        const CheckDef &d = check_def(check);
        std::vector<int> el; for (size_t i = 0; i < order.size(); i++) if (eligible(d, kind_at((int)i))) el.push_back((int)i);
        if (el.empty()) { fprintf(stderr, "no kinds for %s\n", check.c_str()); exit(3); }
        // families are equally likely, however many kinds they have
        std::vector<std::string> fams; for (int i : el) { std::string f = kind_at(i).family; if (std::find(fams.begin(), fams.end(), f) == fams.end()) fams.push_back(f); }
        auto pick = [&]() -> int { std::string f = fams[r.below((u32)fams.size())]; std::vector<int> c; for (int i : el) if (f == kind_at(i).family) c.push_back(i); return c[r.below((u32)c.size())]; };
        int *g = p.cfg;
        g[C_PLACE] = (int)r.below(NPLACE); g[C_FRESH] = (int)r.below(NFILL); g[C_FREED] = (int)r.below(NFILL); g[C_RZ] = r.chance(1, 3) ? 0 : 8 * (int)r.range(1, 4); g[C_ALIGN8] = r.chance(1, 2); g[C_FRESH2] = (int)r.below(NFILL - 1);
        int caps[] = {3, 6, 12, 24, 48, 120}; g[C_CAP] = caps[r.below(6)];
        int bulks[] = {2, 4, 8, 16}; g[C_BULK] = bulks[r.below(4)];
        g[C_DOMAIN] = r.chance(1, 3) ? 0 : (int)r.range(2, 10) * (int)r.range(1, 10);
        g[C_TASKS] = r.chance(1, 2) ? 1 : (int)r.range(2, 3); g[C_SLOTS] = (int)r.range(1, SLOTS); g[C_EVERY] = 1;
        int nsteps = (int)r.range(6, 30) * (int)r.range(1, 4); int grate = r.chance(1, 3) ? 0 : (int)r.range(3, 30);
        bool single_kind = r.chance(2, 3), big = false, huge = false;
        bool rare_big = (d.oracle == O_STORAGE || d.oracle == O_ELEM || d.oracle == O_COPY || d.oracle == O_MOVE || d.oracle == O_HANDLE) && r.chance(1, 30);
        switch (d.oracle) {
        case O_MODEL:
            if (r.chance(1, thorough ? 150 : strstr("avl map deque,queue slist,dlist", d.families) ? 900 : 500) && !strstr("bst range array ring order btree", d.families)) { g[C_CAP] = 70000; g[C_LIGHT] = 1; g[C_BULK] = 40000; g[C_EVERY] = 2; if (g[C_DOMAIN] || !strcmp(d.families, "map") || !strcmp(d.families, "avl")) g[C_DOMAIN] = 1 << 20; g[C_TASKS] = 1; g[C_SLOTS] = 1; nsteps = (int)r.range(4, 9); g[C_RZ] = 0; big = true; grate = std::min(grate, 10); huge = true; }
            else if (r.chance(1, 40)) { g[C_CAP] = thorough ? 6000 : 3000; g[C_LIGHT] = 1; g[C_BULK] = 500; g[C_EVERY] = 6; if (g[C_DOMAIN]) g[C_DOMAIN] = r.chance(1, 2) ? 8000 : 100; g[C_TASKS] = 1; g[C_SLOTS] = (int)r.range(1, 2); nsteps = (int)r.range(20, 60); big = true; }
            else if (r.chance(1, 25)) { nsteps = (int)r.range(400, thorough ? 4000 : 1500); g[C_CAP] = std::min(g[C_CAP], 24); g[C_TASKS] = 1; }
            else if (r.chance(1, 8)) { g[C_CAP] = thorough ? 1500 : 500; g[C_LIGHT] = 1; g[C_BULK] = 100; g[C_EVERY] = 6; g[C_DOMAIN] = g[C_DOMAIN] ? 1000 : 0; g[C_TASKS] = 1; g[C_SLOTS] = 1; }
            if (!strcmp(d.families, "range")) { g[C_CAP] = std::min(g[C_CAP], 300); g[C_BULK] = std::min(g[C_BULK], 60); nsteps = std::min(nsteps, 200); }
            if (!strcmp(d.families, "uf") && r.chance(1, 3)) { g[C_CAP] = r.chance(1, 3) ? 60000 : 3000; g[C_LIGHT] = 1; g[C_BULK] = 400; g[C_TASKS] = 1; g[C_SLOTS] = 1; g[C_EVERY] = 4; nsteps = (int)r.range(3, 14); }
            break;
        case O_STORAGE: g[C_TASKS] = 1; g[C_RZ] = 8 * (int)r.range(1, 6); g[C_MODE] = r.chance(2, 5); if (g[C_FREED] == FILL_STALE && r.chance(1, 2)) g[C_FREED] = FILL_CD; if (g[C_MODE]) { g[C_FRESH] = r.chance(1, 2) ? FILL_FF : FILL_RANDOM; g[C_FRESH2] = r.chance(1, 2) ? FILL_ZERO : FILL_CD; } break;
        case O_ELEM: g[C_TASKS] = 1; break;
        case O_REFUSE: g[C_TASKS] = 1; g[C_SLOTS] = (int)r.range(1, 3); g[C_RZ] = 8 * (int)r.range(1, 4); g[C_FREED] = FILL_CD; if (r.chance(1, 2)) g[C_PLACE] = PL_BUMP; break;
        case O_ISOLATE: g[C_HOT] = r.chance(1, 3) ? 0 : (int)r.range(1, 30); g[C_TASKS] = (int)r.range(2, 4); g[C_SLOTS] = (int)r.range(1, 2); nsteps = (int)r.range(4, 16) * g[C_TASKS]; g[C_CAP] = std::min(g[C_CAP], 48); break;
        case O_READERS: g[C_HOT] = r.chance(1, 3) ? 0 : (int)r.range(1, 30); g[C_TASKS] = 1; g[C_READERS] = (int)r.range(2, 4); g[C_SLOTS] = (int)r.range(1, 3); nsteps = (int)r.range(2, 20); g[C_CAP] = std::min(g[C_CAP], 48); break;
        case O_COPY: case O_MOVE: g[C_TASKS] = r.chance(3, 4) ? 1 : 2; g[C_SLOTS] = (int)r.range(2, SLOTS); grate = (int)r.range(15, 60); single_kind = r.chance(5, 6); break;
        case O_MEMORY: { g[C_TASKS] = 1; g[C_SLOTS] = 1; g[C_LIGHT] = 1; int cc[] = {2, 4, 8, 20, 50, 150, 700, 2500}; g[C_CAP] = cc[r.below(8)]; g[C_BULK] = 1 + (int)r.below((u32)std::min(g[C_CAP], 400)); g[C_EVERY] = 1000000; int pl[] = {PL_LIFO, PL_FIFO, PL_RANDOM, PL_DESC_LIFO, PL_FIRSTFIT}; g[C_PLACE] = pl[r.below(5)]; g[C_FRESH] = FILL_STALE; g[C_FREED] = FILL_STALE; g[C_DOMAIN] = g[C_DOMAIN] ? std::max(64, g[C_CAP] * 2) : g[C_CAP] > 64 ? 2 * g[C_CAP] : 0; nsteps = (int)r.range(2, 6); break; }
        case O_STATIC: g[C_TASKS] = r.chance(2, 3) ? 1 : 2; g[C_SLOTS] = (int)r.range(1, 2); g[C_CAP] = (int)r.range(2, 14); g[C_BULK] = (int)r.range(1, 6); if (g[C_DOMAIN] > 64) g[C_DOMAIN] = 64; break;
        case O_PORT: g[C_TASKS] = (int)r.range(1, 4); g[C_SLOTS] = (int)r.range(1, 3); g[C_CAP] = std::min(g[C_CAP], 48); break;
        case O_HANDLE: g[C_TASKS] = r.chance(3, 4) ? 1 : 2; g[C_SLOTS] = (int)r.range(1, 3); g[C_CAP] = std::min(g[C_CAP], 48); break;
        default: break;
        }
        if ((d.oracle == O_REFUSE || d.oracle == O_ISOLATE || d.oracle == O_READERS || d.oracle == O_PORT) && r.chance(1, 30)) {   // sizes at which growth, splitting and indexing take other paths
            g[C_CAP] = 900; g[C_BULK] = 150; g[C_LIGHT] = 1; g[C_SLOTS] = 1; g[C_TASKS] = std::min(g[C_TASKS], 2); if (g[C_DOMAIN]) g[C_DOMAIN] = 2000; nsteps = std::min(nsteps, d.oracle == O_REFUSE ? 30 : 14); grate = std::min(grate, 20); big = true;
        }
        if (rare_big) { g[C_CAP] = 900; g[C_BULK] = 200; g[C_LIGHT] = 1; nsteps = std::min(nsteps, 40); if (g[C_DOMAIN]) g[C_DOMAIN] = 2000; g[C_TASKS] = 1; big = true; }
        int nk = d.oracle == O_READERS ? 1 : g[C_TASKS];
        int all = d.oracle == O_ISOLATE && r.chance(3, 5) ? pick() : -1;       // what is static in a template is shared by its users only
        for (int t = 0; t < nk; t++) { int k0 = all >= 0 ? all : pick(); for (int s = 0; s < g[C_SLOTS]; s++) g[C_KIND0 + t * SLOTS + s] = 1 + (single_kind ? k0 : (s == 0 || r.chance(1, 3)) ? (all >= 0 ? all : (k0 = pick())) : k0); }
        for (int i = 0; i < MAXT * SLOTS; i++) if (g[C_KIND0 + i] && kind_at(g[C_KIND0 + i] - 1).flags & KF_ALIGN16) { g[C_ALIGN8] = 0; g[C_RZ] = g[C_RZ] / 16 * 16 + (g[C_RZ] % 16 ? 16 : 0); }
        if (d.oracle == O_HANDLE && !big) { if (r.chance(1, 2)) g[C_DOMAIN] = 0; else g[C_DOMAIN] = 64; }
        g[C_VALS] = r.chance(1, 3) ? (int)r.range(1, 5) : 0;
        // swarm: which operations this run may use
        for (int i = 0; i < nsteps; i++) {
            Step s; s.task = (u8)r.below((u32)nk); s.slot = (u8)r.below((u32)g[C_SLOTS]); s.fault = 0; s.a = (u32)r.next(); s.b = (u32)r.next();
            const KindInfo &k = kind_at(g[C_KIND0 + s.task * SLOTS + s.slot] - 1);
            s.op = pick_op(r, p, k, d, grate);
            p.steps.push_back(s);
        }
        if (r.chance(2, 3) && d.oracle != O_MEMORY) {    // growth phases and drain phases rather than a steady mix
            for (auto &s : p.steps) if (r.chance(1, 2)) { const KindInfo &k = kind_at(g[C_KIND0 + s.task * SLOTS + s.slot] - 1); if (s.op >= G_NUM) { u32 phase = (u32)(&s - &p.steps[0]) * 4 / (u32)p.steps.size(); s.op = phase_op(r, k, (phase + g[C_PLACE]) & 1, s.op); } }
        }
        // an element that is itself a container costs as much as several allocations: such runs stay smaller
        for (int i = 0; i < MAXT * SLOTS; i++) if (g[C_KIND0 + i] && kind_at(g[C_KIND0 + i] - 1).flags & KF_NESTED) { huge = false; g[C_CAP] = std::min(g[C_CAP], 400); g[C_BULK] = std::min(g[C_BULK], 60); break; }
        if (huge) {   // beyond what 16 bits count
            if (strstr(kind_at(g[C_KIND0] - 1).name, "short")) { g[C_DOMAIN] = 25000; g[C_CAP] = 20000; }
            for (size_t i = 0; i < p.steps.size(); i++) if (r.chance(2, 3)) { Step &q = p.steps[i]; int n; const OpInfo *o = kind_at(g[C_KIND0 + q.task * SLOTS + q.slot] - 1).ops(n); for (int k = 0; k < n; k++) if (!strncmp(o[k].name, "bulk_", 5) && !strstr(o[k].name, "pop") && !r.chance(1, 3)) { q.op = (u16)(G_NUM + k); if (r.chance(1, 2)) q.b = (u32)g[C_BULK] - 1; } }
        }
        switch (d.oracle) {
        case O_STATIC: {
            // another client of the same arena allocates, releases and merges between the operations
            std::vector<Step> q; int rate = r.chance(1, 4) ? 0 : (int)r.range(5, 60);
            auto other = [&]() { Step s; s.task = (u8)g[C_TASKS]; s.slot = 0; s.op = OP_BALLAST; s.a = (u32)r.next(); s.b = (u32)r.next(); s.fault = 0; q.push_back(s); };
            if (rate) for (int i = (int)r.below(12); i > 0; i--) other();
            for (auto &s : p.steps) { if ((int)r.below(100) < rate) other(); q.push_back(s); }
            p.steps = q; gen_slices(p, r, g[C_TASKS] + 1, 2); break; }
        case O_MODEL: case O_COPY: case O_MOVE: case O_HANDLE: if (g[C_TASKS] > 1) gen_slices(p, r, g[C_TASKS], 1); break;
        case O_ISOLATE:
            gen_slices(p, r, g[C_TASKS], 2);
            if (r.chance(1, 3)) { int nk2 = 1 + (int)r.below(2); for (int i = 0; i < nk2; i++) { Step &s = p.steps[r.below((u32)p.steps.size())]; u32 lim = 1u << r.range(1, 11); s.fault = FAULT_KILL | (r.chance(1, 6) ? 0 : 1 + r.below(lim)); } }
            break;
        case O_READERS: {
            int nr = (int)r.range(2, 8) * g[C_READERS];
            for (int i = 0; i < nr; i++) { Step s; s.task = (u8)(1 + r.below((u32)g[C_READERS])); s.slot = (u8)(r.chance(3, 4) ? 0 : r.below((u32)g[C_SLOTS])); s.op = OP_READ; s.a = (u32)r.next(); s.b = (u32)r.next(); s.fault = 0; p.steps.push_back(s); }
            gen_slices(p, r, g[C_READERS], 2); break; }
        case O_PORT: {
            // the ballast client fills and fragments the arena so that the containers live at its limits
            std::vector<Step> q; int rate = (int)r.range(2, 14), base = (int)r.range(0, 2);
            auto ballast = [&](int kind) { Step s; s.task = (u8)g[C_TASKS]; s.slot = 0; s.op = OP_BALLAST; s.a = (u32)kind; s.b = (u32)r.next(); s.fault = 0; q.push_back(s); };
            if (base) { ballast(r.chance(1, 2) ? B_FILL : B_LEAVE); if (base == 2) { ballast(B_FILL); ballast(B_NEIGHBOURS + (int)r.below(3)); } }
            for (auto &s : p.steps) { if ((int)r.below(100) < rate) { int k = (int)r.below(B_NUM); if (k == B_BEYOND && !r.chance(1, 6)) k = B_NEIGHBOURS; if (k == B_ALL && !r.chance(1, 4)) k = B_NEIGHBOURS; ballast(k); } q.push_back(s); }
            if (r.chance(1, 4)) ballast(B_BEYOND);
            p.steps = q; gen_slices(p, r, g[C_TASKS] + 1, r.chance(1, 2) ? 2 : 0); break; }
        case O_REFUSE: { int n = (int)p.steps.size(); int from = (int)r.below((u32)n); for (int i = from; i < n; i++) if (r.chance(2, 3)) p.steps[(size_t)i].fault = FAULT_ALLOC | (r.chance(1, 2) ? 1 : r.chance(1, 8) ? r.range(1, big ? 400 : 60) : r.range(1, 6)); break; }
        case O_MEMORY:
            for (auto &s : p.steps) if (r.chance(5, 6)) { s.op = OP_CHURN; s.b = (thorough ? 30000u : 6000u) / (r.chance(1, 3) ? 1 : 8) / (g[C_CAP] > 150 ? 6 : 1); }
            break;
        default: break;
        }
    }

    bool vary(Plan &p, Rng &r, const std::string &check) {
        int o = check_def(check).oracle; if (o != O_ISOLATE && o != O_READERS) return false;
        p.slices.clear(); p.cfg[C_HOT] = (int)r.range(3, 60); gen_slices(p, r, o == O_ISOLATE ? p.cfg[C_TASKS] : p.cfg[C_READERS], 2);
        return true;
    }
    enum { B_FILL, B_LEAVE, B_NEIGHBOURS, B_EVERY, B_SOME, B_ALL, B_BEYOND, B_NUM };
    std::vector<std::pair<char *, int> > bal;
    void bal_add(long n) { begin_op(budget); char *p = (char *)port_alloc((int)n); bal.push_back(std::make_pair(p, (int)n)); }
    void bal_drop(size_t i) { auto e = bal[i]; bal[i] = bal.back(); bal.pop_back(); begin_op(budget); port_free(e.first, e.second); }
    void ballast(const Step &s) {
        Rng r(s.b); sh->res.steps++;
        switch (s.a % B_NUM) {
        case B_FILL: { long sizes[] = {512, 1000, 2048, 4096, 10000, 65536, 136, 128}; long z = sizes[r.below(8)]; for (int i = 0; i < 3000 && g_arena.largest() >= z; i++) bal_add(r.chance(1, 4) ? std::min(g_arena.largest(), z + 8 * (long)r.below(12)) : z); long rest; while ((rest = g_arena.largest()) > 0 && r.chance(7, 8)) bal_add(rest); if (rest <= 0) g_full_piece = 8; break; }
        case B_LEAVE: { long keep = 1L << r.below(15); long run = g_arena.largest(); if (run > keep) bal_add(run - keep); break; }
        case B_NEIGHBOURS: { if (bal.empty()) break; std::sort(bal.begin(), bal.end()); size_t at = r.below((u32)bal.size()), n = std::min<size_t>(2 + r.below(9), bal.size() - at); std::vector<char *> v; for (size_t i = 0; i < n; i++) v.push_back(bal[at + i].first);
            while (!v.empty()) { size_t i = r.below((u32)v.size()); for (size_t k = 0; k < bal.size(); k++) if (bal[k].first == v[i]) { bal_drop(k); break; } v.erase(v.begin() + (long)i); } break; }
        case B_EVERY: { std::sort(bal.begin(), bal.end()); int k = 2 + (int)r.below(3); std::vector<char *> v; for (size_t i = 0; i < bal.size() && v.size() < 200; i += (size_t)k) v.push_back(bal[i].first); for (char *q : v) for (size_t j = 0; j < bal.size(); j++) if (bal[j].first == q) { bal_drop(j); break; } break; }
        case B_SOME: { int n = 1 + (int)r.below(60); while (n-- && !bal.empty()) bal_drop(r.below((u32)bal.size())); break; }
        case B_ALL: while (!bal.empty()) bal_drop(bal.size() - 1 - r.below((u32)std::min<size_t>(bal.size(), 20))); break;
        case B_BEYOND: { long run = g_arena.largest(); bal_add(run + 1 + (long)(r.chance(1, 3) ? r.below(1 << 21) : r.below(40))); break; }
        }
        state(mix(0xba11, mix(g_arena.shape(), s.a % B_NUM)));
    }
    // the other client of the static arena: keeps at most a few kilobytes, in small blocks
    void static_other(const Step &s) {
        Rng r(mix(s.a, s.b)); sh->res.steps++; count(F_ARENA_SHARED);
        u32 k = r.below(20);
        auto add = [&](int n) { if (static_arena->max_block() - n < 5600) return; begin_op(budget); char *p; { LibScope l; p = (char *)static_arena->alloc(n); }
            if (!p) fail("arena", "a request for %d bytes by another client was refused though a block of %d bytes is free", n, static_arena->max_block());
            const char *why = g_arena.add(p, n, 0, mix(s.b, (u64)n)); if (why) fail("arena", "a block of %d bytes given to another client %s", n, why); bal.push_back(std::make_pair(p, n)); };
        auto drop = [&](size_t i) { auto e = bal[i]; bal[i] = bal.back(); bal.pop_back(); g_arena.remove(e.first); begin_op(budget); LibScope l; static_arena->release(e.first, e.second); };
        if (k < 9) { int n = 1 + (int)r.below(10); for (int i = 0; i < n; i++) add(r.chance(3, 4) ? 1 + (int)r.below(130) : 1 + (int)r.below(700)); }
        else if (k < 16) { int n = 1 + (int)r.below(6); if (!bal.empty()) count(F_ARENA_HOLE); while (n-- && !bal.empty()) drop(r.below((u32)bal.size())); }
        else if (k < 17) { while (!bal.empty()) drop(bal.size() - 1); }
        else { begin_op(budget); LibScope l; static_arena->merge(); count(F_ARENA_MERGED_BY_OTHER); }
        other_intact("another client's calls");
        state(mix(0x57a7, g_arena.shape()));
    }
    void other_intact(const char *what) { for (auto &e : g_arena.live) if (!Shadow::intact(e.first, e.second)) fail("arena", "a block of %ld bytes that another client of the static arena holds was changed by %s", e.second.bytes, what); }
    void learn_arena() {
        g_arena = Shadow(); g_full_piece = 0; bal.clear();
        auto serves = [&](long n, u64 &at) -> bool { memset(sh->aux, 0, 16); run_sub([&] { void *p = 0; begin_op(budget); if (!stopped_alloc((int)n, p)) { u64 v = (u64)p; memcpy(sh->aux, &v, 8); } g_in_lib = false; }); memcpy(&at, sh->aux, 8); return at != 0; };
        u64 at = 0, x; long lo = 1 << 20;
        if (!serves(lo, at) || serves(lo + 1, x)) {
            lo = 0; long hi = 1L << 28; while (lo + 1 < hi) { long m = (lo + hi) / 2; if (serves(m, x)) { lo = m; at = x; } else hi = m; }
            if (!lo) fail("not-served", "a new static-memory heap serves no request at all");
        }
        g_arena.base = (char *)at; g_arena.size = lo / 8 * 8;
    }
    u16 pick_op(Rng &r, const Plan &p, const KindInfo &k, const CheckDef &d, int grate) {
        if ((int)r.below(100) < grate) {
            static const u8 all[] = {G_COPY_ASSIGN, G_COPY_ASSIGN, G_COPY_CTOR, G_MOVE_ASSIGN, G_MOVE_ASSIGN, G_MOVE_CTOR, G_SELF_COPY, G_SELF_MOVE, G_RECREATE, G_COPY_TEMP, G_CLEAR, G_CLEAR, G_CLEAR};
            static const u8 copies[] = {G_COPY_ASSIGN, G_COPY_ASSIGN, G_COPY_ASSIGN, G_COPY_CTOR, G_COPY_CTOR, G_SELF_COPY, G_COPY_TEMP, G_RECREATE, G_CLEAR, G_MOVE_ASSIGN};
            static const u8 moves[] = {G_MOVE_ASSIGN, G_MOVE_ASSIGN, G_MOVE_ASSIGN, G_MOVE_CTOR, G_MOVE_CTOR, G_SELF_MOVE, G_RECREATE, G_CLEAR, G_COPY_ASSIGN};
            static const u8 handles[] = {G_MOVE_ASSIGN, G_MOVE_CTOR, G_SELF_MOVE, G_SELF_COPY, G_COPY_TEMP, G_CLEAR};
            if (d.oracle == O_COPY) return copies[r.below(sizeof copies)];
            if (d.oracle == O_MOVE) return moves[r.below(sizeof moves)];
            if (d.oracle == O_HANDLE) return handles[r.below(sizeof handles)];
            return all[r.below(sizeof all)];
        }
        int n; const OpInfo *o = k.ops(n); int tot = 0; for (int i = 0; i < n; i++) tot += w(o[i], d);
        int x = (int)r.below((u32)tot); for (int i = 0; i < n; i++) { x -= w(o[i], d); if (x < 0) return (u16)(G_NUM + i); }
        (void)p; return G_NUM;
    }
    static int w(const OpInfo &o, const CheckDef &d) { if (d.oracle == O_MEMORY && (o.flags & OPF_RESERVE)) return 0; return o.w; }
    u16 phase_op(Rng &r, const KindInfo &k, bool grow, u16 keep) {
        int n; const OpInfo *o = k.ops(n); std::vector<int> c;
        for (int i = 0; i < n; i++) { const char *nm = o[i].name; bool add = strstr(nm, "push") || strstr(nm, "write") || strstr(nm, "append") || strstr(nm, "connect"); bool rem = strstr(nm, "pop") || strstr(nm, "erase"); if (strstr(nm, "absent") || strstr(nm, "loop")) continue; if (grow ? add : rem) c.push_back(i); }
        return c.empty() ? keep : (u16)(G_NUM + c[r.below((u32)c.size())]);
    }
    void gen_slices(Plan &p, Rng &r, int n, int how) {
        if (how == 0) return;
        int ns = how == 2 ? (int)r.range(5, 120) : (int)r.range(2, 40); int lo = (int)r.below(6), hi = lo + (int)r.range(1, 7);
        int last = -1;
        for (int i = 0; i < ns; i++) { Slice s; int t; do t = (int)r.below((u32)n); while (t == last && r.chance(3, 4)); last = t; s.task = (u8)t; u32 m = 1u << r.range(lo, hi); s.quantum = m + r.below(m); if (r.chance(1, 12)) s.quantum = 500 + r.below(8000); p.slices.push_back(s); }
    }

    // ------------------------------------------------------------ execution
    struct Slot { Obj *o; u64 h; Obs last; Obj *twin; bool has_new; int f_new; u64 peak; };
    Slot sl[MAXT][SLOTS]; int nt, ns; const Plan *P; const CheckDef *D; u64 budget;
    void *tmp[MAXT]; std::vector<int> cur_step_of;

    void setup(const Plan &p, const std::string &check, int only_task, int fresh) {
        P = &p; D = &check_def(check); nt = std::min(std::max(1, p.cfg[C_TASKS]), (int)MAXT); ns = std::min(std::max(1, p.cfg[C_SLOTS]), (int)SLOTS);
        HeapCfg h; h.place = p.cfg[C_PLACE] % NPLACE; h.fresh = fresh % NFILL; h.freed = p.cfg[C_FREED] % NFILL; h.redzone = p.cfg[C_RZ]; h.align8 = p.cfg[C_ALIGN8]; h.seed = p.seed;
        h.judge_storage = D->oracle == O_STORAGE; h.judge_elem = D->oracle == O_ELEM; h.count_elem = D->oracle == O_STORAGE;
        heap_init(h); codec_set(p.cfg[C_VALS] % 6, p.cfg[C_DOMAIN]);
        budget = check == "C18" || p.cfg[C_CAP] > 20000 ? 500000000ull : 80000000ull;
        if (D->oracle == O_MEMORY) budget = 2000000000ull;
        memset(tmp, 0, sizeof tmp);
        for (int t = 0; t < nt; t++) for (int s = 0; s < ns; s++) {
            Slot &x = sl[t][s]; x.o = 0; x.twin = 0; x.h = 0; x.peak = 0; const KindInfo *k = kind_of(p, t, s); if (!k) continue;
            x.o = mk(k, t, s);
            if (only_task >= 0 && t != only_task) { continue; }
        }
    }
    Obj *mk(const KindInfo *k, int t, int s) {
        Obj *o = k->make(); o->ki = k; o->task = t; o->slot = s; o->mem = obj_alloc(k->object_size); o->tmp = obj_alloc(k->object_size);
        const int *g = P->cfg; o->domain = g[C_DOMAIN]; o->cap = std::max(2, g[C_CAP]); o->bulk = std::max(1, g[C_BULK]); if (D->oracle == O_MEMORY && fam(*o->ki, "bst")) { o->cap = std::min(o->cap, 200); o->bulk = std::min(o->bulk, 60); }   /* an unbalanced tree may be a chain */ o->light = g[C_LIGHT]; o->junk_seed = mix(P->seed, (u64)(t * 8 + s));
        o->judge_model = D->oracle == O_MODEL || D->oracle == O_PORT || D->oracle == O_STATIC; o->judge_copies = D->oracle == O_COPY; o->judge_handles = D->oracle == O_HANDLE; o->judge_depth = !strcmp(D->id, "C18");
        if (fam(*k, "uf")) { Rng r(mix(P->seed, (u64)(t * 4 + s + 99))); o->variant = 1 + (int)r.below((u32)o->cap); }
        else { Rng r(mix(P->seed, (u64)(t * 4 + s + 7))); o->variant = (int)r.below(8); }
        if (fam(*k, "slist") || fam(*k, "dlist")) if (D->oracle == O_HANDLE) o->domain = 0;
        if ((fam(*k, "bst") || fam(*k, "avl") || fam(*k, "map")) && o->domain && o->domain < 4) o->domain = 4;
        o->next_val = 0;
        return o;
    }
    void make_object(Obj *o) {
        heap.expect_dom = o->ki->flags & (KF_STATIC | KF_PORT) ? -1 : o->ki->dom; begin_op(budget); o->create(); heap.expect_dom = -1;
    }
    Obj *peer_of(const Step &s) {
        Obj *me = sl[s.task][s.slot].o; std::vector<Obj *> c;
        for (int i = 0; i < ns; i++) { Obj *q = sl[s.task][i].o; if (q && q != me && q->ki == me->ki && q->alive) c.push_back(q); }
        return c.empty() ? 0 : c[s.a % c.size()];
    }
    static bool is_copy(int op) { return op == G_COPY_ASSIGN || op == G_COPY_CTOR || op == G_SELF_COPY || op == G_COPY_TEMP; }
    static bool is_move(int op) { return op == G_MOVE_ASSIGN || op == G_MOVE_CTOR || op == G_SELF_MOVE; }
    std::string opn(const Step &s, const KindInfo *k) { if (s.op == OP_READ) return "read"; if (s.op == OP_CHURN) return "churn"; if (s.op == OP_BALLAST) { static const char *bn[] = {"fill the arena", "leave little", "release neighbours", "release every k-th", "release some", "release all", "request too much"}; if (check_def(cur_check).oracle == O_STATIC) return "another client of the arena"; return std::string("ballast: ") + bn[s.a % B_NUM]; } if (s.op < G_NUM) return gen_name[s.op]; int n; const OpInfo *o = k->ops(n); return o[(s.op - G_NUM) % n].name; }
    std::string op_name(const Plan &p, const Step &s) {
        if (s.op == OP_BALLAST) return opn(s, 0);
        const CheckDef &d = check_def(cur_check); int t = d.oracle == O_READERS ? 0 : s.task % std::max(1, p.cfg[C_TASKS]); const KindInfo *k = kind_of(p, t, s.slot % std::max(1, p.cfg[C_SLOTS])); if (!k) return "-";
        std::string r = std::string(k->name) + " " + opn(s, k); char b[64]; u32 a = s.fault & FAULT_ARG; if ((s.fault & FAULT_KIND) == FAULT_KILL) { snprintf(b, sizeof b, "  KILL after %u ticks", a); r += b; } if ((s.fault & FAULT_KIND) == FAULT_ALLOC) { snprintf(b, sizeof b, "  REFUSE allocation %u", a); r += b; } return r;
    }
    std::string cur_check;
    std::string describe(const Plan &p) {
        static const char *pl[] = {"bump", "lifo", "fifo", "random", "descending", "descending-lifo", "first-fit"}; static const char *fl[] = {"zero", "0xff", "0xcd/0xdd", "random", "stale"}; char b[256];
        snprintf(b, sizeof b, "tasks %d slots %d placement %s fresh %s freed %s redzone %d align8 %d domain %d cap %d bulk %d readers %d values %d", p.cfg[C_TASKS], p.cfg[C_SLOTS], pl[p.cfg[C_PLACE] % NPLACE], fl[p.cfg[C_FRESH] % NFILL], fl[p.cfg[C_FREED] % NFILL], p.cfg[C_RZ], p.cfg[C_ALIGN8], p.cfg[C_DOMAIN], p.cfg[C_CAP], p.cfg[C_BULK], p.cfg[C_READERS], p.cfg[C_VALS]);
        return b;
    }
    int n_simplify() { return 16; }
    bool simplify_cfg(Plan &p, int k) {
        int o[NCFG]; memcpy(o, p.cfg, sizeof o);
        switch (k) {
        case 0: p.cfg[C_TASKS] = 1; for (auto &s : p.steps) if (s.op != OP_READ) s.task = 0; break;
        case 1: p.cfg[C_SLOTS] = 1; for (auto &s : p.steps) s.slot = 0; break;
        case 2: p.cfg[C_SLOTS] = 2; for (auto &s : p.steps) s.slot &= 1; if (o[C_SLOTS] <= 2) return false; break;
        case 3: p.cfg[C_PLACE] = PL_BUMP; break;
        case 4: p.cfg[C_FRESH] = FILL_ZERO; break;
        case 5: p.cfg[C_FREED] = FILL_STALE; break;
        case 6: p.cfg[C_ALIGN8] = 0; break;
        case 7: p.cfg[C_LIGHT] = 0; break;
        case 8: p.cfg[C_EVERY] = 1; break;
        case 9: p.cfg[C_READERS] = std::min(2, o[C_READERS]); for (auto &s : p.steps) if (s.op == OP_READ) s.task = (u8)(1 + (s.task - 1) % 2); break;
        case 10: p.cfg[C_BULK] = std::min(2, o[C_BULK]); break;
        case 11: p.cfg[C_DOMAIN] = 0; break;
        case 12: p.cfg[C_CAP] = std::max(3, o[C_CAP] / 2); break;
        case 13: p.cfg[C_RZ] = 16; break;
        case 14: p.cfg[C_HOT] = 0; break;
        case 15: p.cfg[C_VALS] = 0; break;
        }
        return memcmp(o, p.cfg, sizeof o) != 0;
    }

    // what an object looks like now
    void look(Obj *o, Obs &out) { heap.expect_dom = o->ki->flags & (KF_STATIC | KF_PORT) ? -1 : o->ki->dom; begin_op(budget); o->dump(out); heap.expect_dom = -1; }
    void compare_model(Obj *o, const char *after) { if (o->msize() > 65536) count(P_BIG);
        Obs got, want; look(o, got); o->expect(want);
        state(mix(mix((u64)(o->ki - &kinds()[0]), want.hash()), got.v.size()));
        log_u64(got.hash());
        if (fam(*o->ki, "array")) obj_check(after);
        if (got.v != want.v) fail("contents", "%s after %s: observed %s, expected %s", o->ki->name, after, got.str().c_str(), want.str().c_str());
        Obs cg; begin_op(budget); heap.expect_dom = o->ki->flags & (KF_STATIC | KF_PORT) ? -1 : o->ki->dom; o->dump_const(cg); heap.expect_dom = -1;
        if (!fam(*o->ki, "uf") && cg.v != want.v) fail("contents-const", "%s after %s: observed through a const reference %s, expected %s", o->ki->name, after, cg.str().c_str(), want.str().c_str());
        if (!strcmp(D->id, "C15") || !strcmp(D->id, "C16") || (D->oracle == O_STATIC && fam(*o->ki, "bst"))) { begin_op(budget); o->extra_check(); }
        if (!o->msize()) count(P_BECAME_EMPTY);
    }
    // every object except those in `touched` must look as before
    void others_unchanged(int t, const Obj *x, const Obj *y, const char *cls, const char *what) {
        for (int s = 0; s < ns; s++) { Slot &q = sl[t][s]; if (!q.o || !q.o->alive || q.o == x || q.o == y) continue; Obs now; look(q.o, now); if (now.v != q.last.v) fail(cls, "%s in slot %d changed from %s to %s by %s of another object", q.o->ki->name, s, q.last.str().c_str(), now.str().c_str(), what); }
    }
    void remember(Obj *o) { if (!o) return; Slot &q = sl[o->task][o->slot]; q.last.v.clear(); look(o, q.last); state(mix((u64)(o->ki - &kinds()[0]) + 1000, q.last.hash())); log_u64(q.last.hash()); }

    void elem_accounting(const char *when) {
        u64 lo = 0, hi = 0;
        for (int t = 0; t < nt; t++) for (int s = 0; s < ns; s++) { Obj *o = sl[t][s].o; if (!o || !o->alive) continue; u64 n = o->msize() * (u64)o->ki->elems; lo += n; hi += n; if (o->ki->flags & KF_ONE_SENTINEL) { lo += (u64)o->ki->elems; hi += (u64)o->ki->elems; } if (o->ki->flags & KF_EXTREMES) hi += n; }
        u64 e = heap_elems(); if (e < lo || e > hi) fail("element", "%llu live elements in container storage %s, the containers hold %llu%s", (unsigned long long)e, when, (unsigned long long)lo, hi > lo ? " (plus recorded extremes)" : "");
    }

    void run_op(Slot &x, const Step &s, Obj *peer) {
        heap.expect_dom = x.o->ki->flags & (KF_STATIC | KF_PORT) ? -1 : x.o->ki->dom; begin_op(budget);
        x.o->apply(s.op, s.a, s.b, peer);
        heap.expect_dom = -1;
    }
    // no operation leaves more than a few bulks more elements behind on its way
    u64 most_during(Obj *o) { return std::min<u64>((u64)o->cap, o->msize() + 2 * (u64)o->bulk + 8); }
    long mem_bound(const Obj *o, u64 peak) {
        bool arr = fam(*o->ki, "vector") || fam(*o->ki, "heap") || fam(*o->ki, "xstack") || fam(*o->ki, "string") || fam(*o->ki, "deque");
        long unit = std::max((long)o->ki->elem_size, 1L) + (arr ? 8 : 48); long blk = std::max(o->ki->block_bytes, unit); return 12 * (long)(peak + 2) * unit + 24 * blk + 4096;
    }
    void judge_memory(Slot &x, const char *what) {
        u64 n = x.o->msize(); if (n > x.peak) x.peak = n;
        long b = mem_bound(x.o, x.peak);
        if ((long)heap.live_bytes > b) fail("memory-bound", "%s holds %llu bytes for %llu elements (at most %llu since it was empty) during %s, bound %ld", x.o->ki->name, (unsigned long long)heap.live_bytes, (unsigned long long)n, (unsigned long long)x.peak, what, b);
    }
    bool static_room(Obj *o) {
        if (static_arena->max_block() < 5200) { static_arena->merge(); if (static_arena->max_block() < 5200) return false; }
        (void)o; return true;
    }

    void step(const Step &s, int idx, const std::vector<u64> *solo, u32 &li, u64 *out) {
        Slot &x = sl[s.task][s.slot]; if (!x.o) return;
        set_step(idx); sh->res.steps++;
        std::string nm = opn(s, x.o->ki);
        Obj *peer = s.op < G_NUM ? peer_of(s) : 0;
        if (peer && (s.op == G_MOVE_ASSIGN || s.op == G_MOVE_CTOR)) count(F_REUSE_AFTER_MOVE);
        switch (D->oracle) {
        case O_MODEL:
            run_op(x, s, peer);
            if ((idx % std::max(1, P->cfg[C_EVERY])) == 0) { compare_model(x.o, nm.c_str()); if (peer) compare_model(peer, nm.c_str()); }
            break;
        case O_STORAGE: {
            run_op(x, s, peer); heap_check(nm.c_str());
            Obs o; look(x.o, o); log_u64(o.hash()); state(mix((u64)(x.o->ki - &kinds()[0]) + 5000, mix(o.hash(), heap.live_blocks)));
            if (solo && li < solo->size()) { u64 v = mix(o.hash(), heap.obs); if ((*solo)[li] != v) fail("fresh-contents", "%s: what %s did depends on the contents of fresh storage", x.o->ki->name, nm.c_str()); li++; }
            if (out) { u32 &n = sh->scratch_n; if (n < (1u << 16)) sh->scratch[n++] = mix(o.hash(), heap.obs); }
            break; }
        case O_ELEM: run_op(x, s, peer); elem_accounting(("after " + nm).c_str()); state(mix((u64)(x.o->ki - &kinds()[0]) + 6000, mix(x.o->msize(), heap_elems()))); { Obs o; look(x.o, o); log_u64(o.hash()); } break;
        case O_REFUSE: {
            if ((s.fault & FAULT_KIND) != FAULT_ALLOC) { run_op(x, s, peer); for (int i = 0; i < ns; i++) if (sl[0][i].o) remember(sl[0][i].o); break; }
            heap.refused = false; heap.fail_at = heap.n_alloc + (s.fault & FAULT_ARG);
            int st = run_stoppable([&] { run_op(x, s, peer); });
            heap.fail_at = 0; heap.expect_dom = -1; g_in_lib = false;
            if (st && !heap.refused) fail("crash", "%s: %s stopped (%s) though no allocation was refused", x.o->ki->name, nm.c_str(), g_stop_desc);
            if (heap.refused && !st) fail("refusal-ignored", "%s: %s returned to its caller although allocation %u it made was refused", x.o->ki->name, nm.c_str(), s.fault & FAULT_ARG);
            if (heap.refused) {
                log_u64(0x57095709); heap_check("after a refused allocation");
                Obj *tgt = x.o, *src = s.op == G_MOVE_ASSIGN || s.op == G_MOVE_CTOR ? peer : 0;
                for (int i = 0; i < ns; i++) { Slot &q = sl[0][i]; if (!q.o || !q.o->alive || q.o == tgt || q.o == src) continue; Obs now; look(q.o, now); if (now.v != q.last.v) fail("refusal-damage", "a refused allocation in %s of slot %d changed slot %d (%s) from %s to %s", nm.c_str(), s.slot, i, q.o->ki->name, q.last.str().c_str(), now.str().c_str()); }
                state(mix(0xfa11, mix((u64)(x.o->ki - &kinds()[0]) * 64 + s.op, s.fault & FAULT_ARG)));
                finish_ok();
            }
            remember(x.o); if (peer) remember(peer);
            break; }
        case O_ISOLATE: {
            u32 ka = s.fault & FAULT_ARG; bool kill = (s.fault & FAULT_KIND) == FAULT_KILL && !out;
            if (kill) { if (!ka) kill_self_between_ops(); else arm_kill(ka); }
            run_op(x, s, peer);
            Obs o; look(x.o, o); Obs o2; if (peer) look(peer, o2); u64 v = mix(o.hash(), o2.hash());
            Atomic at;
            if (out) { if (sh->scratch_n < (1u << 16)) sh->scratch[sh->scratch_n++] = v; }
            else if (solo) { if (li < solo->size() && (*solo)[li] != v) fail("interference", "%s of task %d after %s: observed %s%s, which is not what the task observes alone", x.o->ki->name, s.task, nm.c_str(), o.str().c_str(), peer ? " (or in its peer)" : ""); li++; state(mix(v, (u64)(x.o->ki - &kinds()[0]))); log_u64(v); }
            break; }
        case O_COPY: {
            bool cp = is_copy(s.op); Obj *src = s.op == G_COPY_ASSIGN || s.op == G_COPY_CTOR ? (peer ? peer : x.o) : x.o; Obs before; if (cp) look(src, before);
            run_op(x, s, peer);
            if (cp) { Obs now, tgt; look(src, now); if (now.v != before.v) fail("copy-source-changed", "%s: %s changed its source from %s to %s", x.o->ki->name, nm.c_str(), before.str().c_str(), now.str().c_str()); look(x.o, tgt); if (tgt.v != before.v) fail("copy-differs", "%s: after %s the target holds %s, the source %s", x.o->ki->name, nm.c_str(), tgt.str().c_str(), before.str().c_str());
                if (src != x.o && s.b % 5 == 0) same_behaviour(src, x.o, mix(s.a, s.b), nm.c_str()); }
            others_unchanged(s.task, x.o, s.op == G_MOVE_ASSIGN || s.op == G_MOVE_CTOR ? peer : 0, "copy-not-independent", nm.c_str());
            remember(x.o); if (peer) remember(peer);
            break; }
        case O_MOVE: {
            bool mv = is_move(s.op); Obj *src = s.op == G_SELF_MOVE || !peer ? x.o : peer; Obs before; if (mv) look(src, before);
            Slot *ps = src != x.o ? &sl[src->task][src->slot] : 0;
            run_op(x, s, peer);
            if (mv) {
                Obs tgt; look(x.o, tgt);
                if (tgt.v != before.v) fail(src == x.o ? "self-move" : "move-target", "%s: after %s the target holds %s, the source held %s", x.o->ki->name, nm.c_str(), tgt.str().c_str(), before.str().c_str());
                if (src != x.o) {
                    Obs now, want; look(src, now); want_empty(src, want);
                    if (now.v != want.v) fail("moved-from", "%s: after %s the source shows %s, a new object shows %s", x.o->ki->name, nm.c_str(), now.str().c_str(), want.str().c_str());
                    drop_twin(*ps); make_twin(*ps);
                }
            }
            if (s.op < G_NUM && s.op != G_CLEAR && s.op != G_COPY_TEMP && s.op != G_SELF_COPY && s.op != G_SELF_MOVE) drop_twin(x);
            if (x.twin && !mv) {   // what a new object does with the same operations
                heap.expect_dom = x.o->ki->dom; begin_op(budget); x.twin->apply(s.op, s.a, s.b, 0); heap.expect_dom = -1; count(F_TWIN_RUN);
                Obs a, b; look(x.o, a); look(x.twin, b); if (a.v != b.v) fail("moved-from-reuse", "%s reused after being moved from: %s gives %s, a new object gives %s", x.o->ki->name, nm.c_str(), a.str().c_str(), b.str().c_str());
            }
            others_unchanged(s.task, x.o, mv && peer ? peer : 0, "move-not-independent", nm.c_str());
            remember(x.o); if (peer) remember(peer);
            break; }
        case O_MEMORY: {
            if (s.op == OP_CHURN) {
                Rng r(mix(s.a, 5)); int n; const OpInfo *o = x.o->ki->ops(n); count(P_LONG_HISTORY);
                // a sub-mix of operations: most churn patterns are narrow
                std::vector<int> c; for (int i = 0; i < n; i++) for (int k = 0; k < w(o[i], *D); k++) if (!(o[i].flags & OPF_RESERVE) && (r.s, (mix(s.a, (u64)i) & 3) != 0)) c.push_back(i);
                if (c.empty()) for (int i = 0; i < n; i++) if (w(o[i], *D)) c.push_back(i);
                int oldcap = x.o->cap; int phase = 0; u32 phase_end = 0;
                for (u32 i = 0; i < s.b; i++) {
                    Step q = s; q.op = (u16)(G_NUM + c[r.below((u32)c.size())]); q.a = (u32)r.next(); q.b = (u32)r.next(); if (i % 997 == 0 && (s.a & 1)) x.o->cap = 2 + (int)r.below((u32)oldcap);
                    // long climbs, complete drains and stretches near empty between stretches of the mix
                    if (i >= phase_end) { phase = (int)r.below(4); phase_end = i + 1 + r.below(phase == 0 ? 300 : phase == 3 ? 12 : 60); }
                    if (phase == 1) q.op = phase_op(r, *x.o->ki, true, q.op); if (phase == 2 || (phase == 3 && x.o->msize() > 3)) q.op = phase_op(r, *x.o->ki, false, q.op); { int nn; const OpInfo *oo = x.o->ki->ops(nn); if (q.op >= G_NUM && (oo[(q.op - G_NUM) % nn].flags & OPF_RESERVE)) q.op = (u16)(G_NUM + c[0]); }
                    if (r.below(400) == 0) q.op = G_COPY_TEMP; else if (r.below(900) == 0) q.op = G_SELF_COPY; else if (r.below(900) == 0) q.op = G_CLEAR;
                    x.o->next_val &= 0xffff; x.peak = std::max<u64>(x.peak, most_during(x.o)); run_op(x, q, 0); sh->res.steps++;
                    if (x.o->msize() == 0) x.peak = 0;
                    judge_memory(x, opn(q, x.o->ki).c_str());
                    if ((i & 255) == 0) { log_u64(heap.live_bytes); state(mix((u64)(x.o->ki - &kinds()[0]) + 22000, mix(x.o->msize(), heap.live_bytes / 64))); }
                }
                x.o->cap = oldcap;
            } else { x.peak = std::max<u64>(x.peak, most_during(x.o)); run_op(x, s, 0); if (x.o->msize() == 0) x.peak = 0; }
            judge_memory(x, nm.c_str());
            if (!(x.o->ki->flags & KF_NOCLEAR)) { Step q = s; q.op = G_CLEAR; run_op(x, q, 0); if (heap.live_bytes > 4096) fail("memory-cleared", "%s holds %llu bytes after it was cleared", x.o->ki->name, (unsigned long long)heap.live_bytes); x.peak = 0; }
            break; }
        case O_STATIC: {
            if (!static_room(x.o)) { count(F_ARENA_EXHAUSTED); break; }
            u64 fn = heap.foreign_new, dc = heap.dom_calls[DOM_DEFAULT];
            int st = run_stoppable([&] { run_op(x, s, peer); });
            g_in_lib = false; heap.expect_dom = -1;
            if (st) { static_arena->merge(); if (static_arena->max_block() < 2600) { count(F_STOP_ON_EXHAUSTION); finish_ok(); } fail("crash", "%s: %s stopped the program (%s) with %d free bytes in the arena", x.o->ki->name, nm.c_str(), g_stop_desc, static_arena->free_size()); }
            if (heap.dom_calls[DOM_DEFAULT] != dc || heap.foreign_new != fn) fail("foreign-memory", "%s: %s obtained memory from the default heap", x.o->ki->name, nm.c_str());
            compare_model(x.o, nm.c_str()); if (peer) compare_model(peer, nm.c_str()); other_intact(nm.c_str());
            if (heap.dom_calls[DOM_DEFAULT] != dc || heap.foreign_new != fn) fail("foreign-memory", "%s: reading obtained memory from the default heap", x.o->ki->name);
            if (s.op == G_CLEAR && nt == 1 && ns == 1 && !(x.o->ki->flags & KF_NOCLEAR) && static_arena->free_size() + (int)g_arena.used < x.f_new) fail("arena-not-restored", "%s: %d bytes of the arena are free after clear, %d were when it was new", x.o->ki->name, static_arena->free_size() + (int)g_arena.used, x.f_new);
            break; }
        case O_PORT: run_op(x, s, peer); compare_model(x.o, nm.c_str()); if (peer) compare_model(peer, nm.c_str()); state(mix(0xb0a7, mix((u64)(x.o->ki - &kinds()[0]), g_arena.shape()))); break;
        case O_HANDLE:
            run_op(x, s, peer); begin_op(budget); x.o->handles_check(nm.c_str()); if (peer) { begin_op(budget); peer->handles_check(nm.c_str()); }
            { Obs o; look(x.o, o); log_u64(o.hash()); state(mix((u64)(x.o->ki - &kinds()[0]) + 24000, o.hash())); }
            break;
        default: break;
        }
    }
    // a copy and its source answer the same operations alike; played out in a throwaway copy of the process
    void same_behaviour(Obj *a, Obj *b, u64 seed, const char *what) {
        count(F_TWIN_RUN);
        run_sub([&] {
            g_cur_task = -1; Rng r(seed); int n; const OpInfo *o = a->ki->ops(n); a->variant = b->variant = a->cmp_variant(); a->next_val = b->next_val = std::max(a->next_val, b->next_val); a->cap += 8; b->cap = a->cap; b->bulk = a->bulk;
            for (int i = 0; i < 10; i++) {
                int k; do k = (int)r.below((u32)n); while (!o[k].w); u32 x = (u32)r.next(), y = (u32)r.next(); if (i == 9) for (k = 0; k < n - 1 && !strstr(o[k].name, "drain") && !strstr(o[k].name, "bulk_pop"); k++) {}
                heap.expect_dom = a->ki->dom; begin_op(budget); a->apply(G_NUM + k, x, y, 0); begin_op(budget); b->apply(G_NUM + k, x, y, 0); heap.expect_dom = -1;
                Obs p, q; look(a, p); look(b, q); if (p.v != q.v) fail("copy-behaves-differently", "%s: after %s, %s of the source gives %s, of the copy %s", a->ki->name, what, o[k].name, p.str().c_str(), q.str().c_str());
            }
        });
    }
    void want_empty(Obj *src, Obs &want) {
        if (fam(*src->ki, "uf")) { src->expect(want); return; }
        Obj *f = fresh_like(src); look(f, want); begin_op(budget); heap.expect_dom = f->ki->dom; f->destroy(); heap.expect_dom = -1; f->alive = false;
        scratch_obj.push_back(f);
    }
    std::vector<Obj *> scratch_obj;
    Obj *fresh_like(Obj *o) {
        Obj *f = 0; for (size_t i = 0; i < scratch_obj.size(); i++) if (scratch_obj[i]->ki == o->ki) { f = scratch_obj[i]; scratch_obj.erase(scratch_obj.begin() + (long)i); break; }
        if (!f) f = mk(o->ki, o->task, o->slot);
        f->variant = o->cmp_variant(); f->next_val = o->next_val; f->cap = o->cap; f->domain = o->domain; make_object(f); f->variant = o->variant; return f;
    }
    void make_twin(Slot &q) { if (fam(*q.o->ki, "uf")) return; q.twin = fresh_like(q.o); }
    void drop_twin(Slot &q) { if (!q.twin) return; heap.expect_dom = q.twin->ki->dom; begin_op(budget); q.twin->destroy(); heap.expect_dom = -1; scratch_obj.push_back(q.twin); q.twin = 0; }

    void create_all(int t) { if (t >= nt) return; for (int s = 0; s < ns; s++) if (sl[t][s].o) { make_object(sl[t][s].o); if (D->oracle == O_STATIC) sl[t][s].f_new = static_arena->free_size() + (int)g_arena.used; if (D->oracle == O_COPY || D->oracle == O_MOVE || D->oracle == O_REFUSE) remember(sl[t][s].o); } }
    void destroy_all(int t) {
        if (t >= nt) return;
        for (int s = 0; s < ns; s++) { Slot &x = sl[t][s]; if (!x.o || !x.o->alive) continue; drop_twin(x); heap.expect_dom = x.o->ki->flags & (KF_STATIC | KF_PORT) ? -1 : x.o->ki->dom; begin_op(budget); x.o->destroy(); heap.expect_dom = -1;
            if (D->oracle == O_COPY) others_unchanged(t, 0, 0, "copy-not-independent", "destruction"); if (D->oracle == O_MOVE) others_unchanged(t, 0, 0, "move-not-independent", "destruction"); if (D->oracle == O_ELEM) elem_accounting("after a destruction"); }
    }
    void task_body(const Plan &p, int t, const std::vector<u64> *solo, bool record) {
        if (D->oracle != O_STATIC) create_all(t);
        u32 li = 0; u64 dummy;
        for (size_t i = 0; i < p.steps.size(); i++) { const Step &s0 = p.steps[i]; if (s0.op == OP_READ) continue; Step s = s0; if (s.op == OP_BALLAST) { if (t == nt) { set_step((int)i); if (D->oracle == O_STATIC) { { Atomic a; static_other(s); } yield_point(); } else ballast(s); } continue; } s.task = (u8)(s.task % nt); s.slot = (u8)(s.slot % ns); if (s.task != t) continue; if (D->oracle == O_STATIC) { { Atomic a; step(s, (int)i, 0, li, 0); } yield_point(); continue; } step(s, (int)i, solo, li, record ? &dummy : 0); }
        if (D->oracle == O_STATIC) { Atomic a; destroy_all(t); } else destroy_all(t);
    }


    void exec(const Plan &p, const std::string &check) {
        cur_check = check; D = &check_def(check);
        switch (D->oracle) {
        case O_STORAGE: {
            std::vector<u64> solo;
            if (p.cfg[C_MODE]) {
                count(F_TWIN_RUN);
                run_sub([&] { setup(p, check, -1, p.cfg[C_FRESH2]); task_body(p, 0, 0, true); });
                solo.assign(sh->scratch, sh->scratch + sh->scratch_n);
            }
            setup(p, check, -1, p.cfg[C_FRESH]); task_body(p, 0, p.cfg[C_MODE] ? &solo : 0, false);
            heap_check("at the end");
            if (heap.live_blocks) fail("leak", "%llu blocks (%llu bytes) are still held after every container was destroyed", (unsigned long long)heap.live_blocks, (unsigned long long)heap.live_bytes);
            break; }
        case O_ISOLATE: {
            std::vector<std::vector<u64> > solo((size_t)p.cfg[C_TASKS] + 1);
            int n = std::min(std::max(1, p.cfg[C_TASKS]), (int)MAXT);
            for (int t = 0; t < n; t++) {
                sh->scratch_n = 0; count(F_SOLO_RUN);
                run_sub([&] { setup(p, check, t, p.cfg[C_FRESH]); task_body(p, t, 0, true); });
                solo[(size_t)t].assign(sh->scratch, sh->scratch + sh->scratch_n);
            }
            setup(p, check, -1, p.cfg[C_FRESH]);
            hot_points(p.cfg[C_HOT], p.seed);
            run_tasks(n, [&](int t) { task_body(p, t, &solo[(size_t)t], false); }, p.slices);
            break; }
        case O_READERS: {
            setup(p, check, -1, p.cfg[C_FRESH]); nt = 1;
            create_all(0); u32 li = 0;
            std::vector<u64> dummy; D = &checks[0]; const CheckDef *keep = &check_def(check); Oracle o = O_READERS; (void)o; D = keep;
            for (size_t i = 0; i < p.steps.size(); i++) { Step s = p.steps[i]; if (s.op == OP_READ) continue; s.task = 0; s.slot = (u8)(s.slot % ns); Slot &x = sl[0][s.slot]; if (!x.o) continue; set_step((int)i); sh->res.steps++; run_op(x, s, s.op < G_NUM ? peer_of(s) : 0); }
            for (int s = 0; s < ns; s++) if (sl[0][s].o) remember(sl[0][s].o);
            int nr = std::min(std::max(1, p.cfg[C_READERS]), 6);
            // what each read sees when nobody else reads
            sh->scratch_n = 0; void *scr[8]; size_t mx = 64; for (int s = 0; s < ns; s++) if (sl[0][s].o) mx = std::max(mx, sl[0][s].o->ki->object_size); for (int i = 0; i < nr; i++) scr[i] = obj_alloc(mx);
            reader_scratch.clear(); for (int i = 0; i < nr; i++) reader_scratch.push_back(std::make_pair((char *)scr[i], (char *)scr[i] + mx));
            run_sub([&] { for (auto &s : p.steps) if (s.op == OP_READ) { Obj *q = sl[0][s.slot % ns].o; Obs ob; if (q) { begin_op(budget); q->reader_op(s.a, scr[0], ob); } if (sh->scratch_n < (1u << 16)) sh->scratch[sh->scratch_n++] = ob.hash(); } });
            std::vector<u64> want(sh->scratch, sh->scratch + sh->scratch_n);
            // a store by a reader to anything that existed before the readers started is a place where another reader may look
            shared_blocks = live_blocks(); shared_obj_end = (char *)obj_alloc(8);
            g_shared = [](const void *q, bool store) { return store && ((q >= (void *)0x220000000000ull && q < (void *)shared_obj_end && !own_scratch((const char *)q)) || in_shared((const char *)q)); };
            hot_points(p.cfg[C_HOT], p.seed);
            run_tasks(nr, [&](int t) {
                size_t k = 0;
                for (size_t i = 0; i < p.steps.size(); i++) { const Step &s = p.steps[i]; if (s.op != OP_READ) continue; size_t me = k++; if ((s.task + nr - 1) % nr != t) continue; Obj *q = sl[0][s.slot % ns].o; if (!q) continue; set_step((int)i); count(F_READER_SLICE); sh->res.steps++;
                    Obs ob; begin_op(budget); q->reader_op(s.a, scr[t], ob); Atomic at; log_u64(ob.hash()); state(mix(ob.hash(), (u64)(q->ki - &kinds()[0]) + 9000)); if (me < want.size() && ob.hash() != want[me]) fail("reader", "%s: reader %d saw %s, which is not what a reader sees alone", q->ki->name, t, ob.str().c_str()); }
            }, p.slices);
            for (int s = 0; s < ns; s++) if (sl[0][s].o) { Obs now; look(sl[0][s].o, now); if (now.v != sl[0][s].last.v) fail("reader", "%s: reading changed the container from %s to %s", sl[0][s].o->ki->name, sl[0][s].last.str().c_str(), now.str().c_str()); }
            (void)li; break; }
        case O_PORT: {
            setup(p, check, -1, p.cfg[C_FRESH]); learn_arena();
            run_tasks(nt + 1, [&](int t) { task_body(p, t, 0, false); }, p.slices);
            // once everything is released, all of it is usable again
            while (!bal.empty()) bal_drop(bal.size() - 1);
            if (g_arena.used) fail("lost-memory", "%ld bytes are still held after every container was destroyed", g_arena.used);
            bal_add(g_arena.size); bal_drop(0);
            break; }
        case O_STATIC: {
            int f0 = 0, m0 = 0;
            setup(p, check, -1, p.cfg[C_FRESH]); g_arena = Shadow(); bal.clear(); static_arena->merge(); f0 = static_arena->free_size(); m0 = static_arena->max_block();
            for (int t = 0; t < nt; t++) create_all(t);
            run_tasks(nt + 1, [&](int t) { task_body(p, t, 0, false); }, p.slices);
            while (!bal.empty()) { auto e = bal.back(); bal.pop_back(); static_arena->release(e.first, e.second); }
            if (static_arena->free_size() != f0) fail("arena-not-restored", "%d bytes of the arena are free after every container was destroyed, %d were before", static_arena->free_size(), f0);
            static_arena->merge(); if (static_arena->max_block() < m0) fail("arena-not-restored", "the largest free block is %d after every container was destroyed and free memory merged, it was %d", static_arena->max_block(), m0);
            if (heap.dom_calls[DOM_DEFAULT] || heap.foreign_new) fail("foreign-memory", "a static-memory container obtained memory from the default heap");
            break; }
        default:
            setup(p, check, -1, p.cfg[C_FRESH]);
            if (nt == 1 && D->oracle == O_REFUSE) task_body(p, 0, 0, false);
            else run_tasks(nt, [&](int t) { task_body(p, t, 0, false); }, p.slices);
            if (D->oracle == O_ELEM) { elem_accounting("at the end"); if (out_elems()) fail("element", "%llu elements outside container storage are still live at the end", (unsigned long long)out_elems()); }
            break;
        }
    }
};
World *make_world() { return new ContWorld(); }
}
