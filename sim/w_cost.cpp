// Cost world: seeded histories; every step's work, counted in executed steps of library code, is held against its order of cost (property C31).
#include "cost.hpp"
namespace sim {
std::vector<CostKind> &cost_kinds() { static std::vector<CostKind> v; return v; }
enum { C_KIND, C_GOAL, C_BURST, C_PLACE, C_TWO };
enum { BASE = 10000 };   // what a burst may take beside the factor of its kind
struct CostWorld : World {
    std::vector<int> order;
    CostWorld() { for (size_t i = 0; i < cost_kinds().size(); i++) order.push_back((int)i); std::sort(order.begin(), order.end(), [](int a, int b) { return strcmp(cost_kinds()[(size_t)a].name, cost_kinds()[(size_t)b].name) < 0; }); }
    const CostKind &kind(const Plan &p) { return cost_kinds()[(size_t)order[(size_t)p.cfg[C_KIND] % order.size()]]; }
    void warmup(const std::string &) { heap_map(false); }
    void gen(Plan &p, Rng &r, const std::string &, bool thorough) {
        int *g = p.cfg; g[C_KIND] = (int)r.below((u32)order.size()); int goals[] = {30, 300, 2000, 2000, 6000, 20000, 60000}; g[C_GOAL] = goals[r.below(thorough ? 7 : 6)]; g[C_BURST] = 1 + (int)r.below((u32)std::min(4000, 50 + g[C_GOAL])); g[C_PLACE] = (int)r.below(NPLACE - 1);
        int ns = (int)r.range(4, 16); for (int i = 0; i < ns; i++) { Step s; s.task = s.slot = 0; s.op = (u16)r.below(1000); s.a = (u32)r.next(); s.b = (u32)r.next(); s.fault = 0; p.steps.push_back(s); }
    }
    std::string describe(const Plan &p) { char b[160]; snprintf(b, sizeof b, "%s grown to %d, bursts of up to %d calls, placement %d", kind(p).name, p.cfg[C_GOAL], p.cfg[C_BURST], p.cfg[C_PLACE]); return b; }
    std::string op_name(const Plan &p, const Step &s) { CostObj *o = probe(p); return o->op_name((int)s.op % o->n_ops()); }
    CostObj *probe(const Plan &p) { static std::map<int, CostObj *> m; int k = p.cfg[C_KIND] % (int)order.size(); if (!m.count(k)) m[k] = kind(p).make(); return m[k]; }
    int n_simplify() { return 3; }
    bool simplify_cfg(Plan &p, int k) { int o[NCFG]; memcpy(o, p.cfg, sizeof o); if (k == 0) p.cfg[C_GOAL] = std::max(30, o[C_GOAL] / 2); if (k == 1) p.cfg[C_BURST] = std::max(1, o[C_BURST] / 2); if (k == 2) p.cfg[C_PLACE] = 0; return memcmp(o, p.cfg, sizeof o) != 0; }
    static u64 lg(u64 n) { u64 l = 1; while (n >>= 1) l++; return l; }
    CostObj *o; const char *name; u64 factor;
    void one(int op, u32 k, u32 r) {
        Work w; u64 n0 = o->size(), t0 = g_ticks; begin_op(1000000000ull);
        o->run(op, k, r, w);
        u64 spent = g_ticks - t0, n1 = o->size(), n = std::max(n0, n1), units = w.calls * (w.lg ? lg(n + 2) : 1) + w.slack;
        u64 most = factor * (units - w.slack) + std::max<u64>(factor / 4, 10) * w.slack + BASE;
        if (const char *d = getenv("COST_DUMP")) if (FILE *f = fopen(d, "a")) fprintf(f, "RATIO %s %s %.1f n %llu\n", name, o->op_name(op), 100 * ((double)spent - BASE) / (double)(most - BASE + 1), (unsigned long long)n), fclose(f);
        log_u64(spent); state(mix(mix((u64)op, lg(n)), (u64)name[0] * 131 + (u64)name[3]));
        if (spent > most) fail("cost", "%s: %s took %llu steps for %llu calls at %llu to %llu elements, more than its order of cost allows (%llu)", name, o->op_name(op), (unsigned long long)spent, (unsigned long long)w.calls, (unsigned long long)n0, (unsigned long long)n1, (unsigned long long)most);
    }
    void exec(const Plan &p, const std::string &) {
        HeapCfg h; memset(&h, 0, sizeof h); h.place = p.cfg[C_PLACE] % NPLACE; h.fresh = FILL_STALE; h.freed = FILL_STALE; h.redzone = 0; h.seed = p.seed; heap_init(h); codec_set(0, 0);
        name = kind(p).name; factor = kind(p).factor; o = kind(p).make(); begin_op(1000000000ull); o->create(); Rng r(p.seed);
        for (int i = 0; i < 400 && (int)o->size() < p.cfg[C_GOAL]; i++) { u64 n0 = o->size(); one(o->grow_op((u32)r.next()), (u32)std::min(4000, p.cfg[C_GOAL] - (int)o->size()), (u32)r.next()); if (o->size() == n0) break; }
        for (size_t i = 0; i < p.steps.size(); i++) { const Step &s = p.steps[i]; set_step((int)i); sh->res.steps++; one((int)s.op % o->n_ops(), 1 + s.b % (u32)p.cfg[C_BURST], s.a); if (o->size() > 60000) count(P_BIG); if (!o->size()) count(P_BECAME_EMPTY); }
        u64 n = o->size(), t0 = g_ticks; begin_op(1000000000ull); o->destroy(); u64 most = 20 * factor * (n + 20001) + BASE; if (g_ticks - t0 > most) fail("cost", "%s: the end of a container of %llu elements took %llu steps", name, (unsigned long long)n, (unsigned long long)(g_ticks - t0));
    }
};
World *make_world() { return new CostWorld(); }
}
