// Static-allocator world: several simulated clients share real StaticMemAllocator arenas (properties C01, C02, C03).
#include "sma.hpp"
#include "shadow.hpp"
namespace sim {
enum SOp { S_ALLOC, S_FREE_ANY, S_FREE_LAST, S_FREE_FIRST, S_DIE, S_MERGE, S_BAD, S_ALLOC_MAX, S_ALLOC_OVER, S_REWRITE, S_FREE_NEIGHBOURS, S_PROBE, S_DUMP, S_FILL, S_HANDOVER, S_FREE_ALL, S_FLOOD, S_NUM };
static const char *sname[S_NUM] = {"allocate", "release any", "release newest", "release oldest", "CLIENT DIES", "memory_merge", "MALFORMED CALL", "allocate largest free", "allocate too much", "rewrite own blocks", "release neighbours", "probe", "dump", "allocate until refused", "hand over a block", "everyone releases", "tens of thousands of small blocks"};
enum { K_INST, K_CLIENTS, K_PROF, K_TWO, K_PROBE, K_TWIN, K_CAP, K_FLOOD };
enum { MAXC = 8, NI = 2 };
struct SmaWorld : World {
    std::string check; bool c1, c2, c3;
    void warmup(const std::string &c) { check = c; }
    void gen(Plan &p, Rng &r, const std::string &c, bool thorough) {
        int *g = p.cfg; int n = (int)sma_apis().size(); g[K_INST] = (int)r.below((u32)n); if (g[K_INST] == n - 1 && !r.chance(1, 4)) g[K_INST] = (int)r.below((u32)n);
        g[K_CLIENTS] = (int)r.range(1, 6); g[K_PROF] = (int)r.below(9); g[K_TWO] = r.chance(1, 5) ? 1 + (int)r.below((u32)n) : 0; g[K_PROBE] = r.chance(1, 2) ? (int)r.range(2, 12) : 40; g[K_TWIN] = c == "C02" && r.chance(1, 2);
        int ns = (int)r.range(10, 60) * (int)r.range(1, thorough ? 12 : 6);
        int w[S_NUM] = {40, 14, 8, 8, 1, 3, 3, 3, 3, 3, 5, 2, 1, 1, 2, 0, 0};
        for (int i = 1; i < S_NUM; i++) if (i != S_FREE_ANY && r.chance(1, 3)) w[i] = 0;      // swarm: not every run uses everything
        if (r.chance(1, 4)) w[S_ALLOC] = 80; if (r.chance(1, 4)) w[S_FREE_ANY] = 40; if (r.chance(1, 4)) w[S_MERGE] = 14; if (r.chance(1, 6)) w[S_FREE_ALL] = 1;
        if (c == "C02" && r.chance(1, 2)) { w[S_BAD] = 12; w[S_ALLOC_OVER] = 10; }
        int tot = 0; for (int x : w) tot += x;
        for (int i = 0; i < ns; i++) { Step s; s.task = (u8)r.below((u32)g[K_CLIENTS]); s.slot = g[K_TWO] ? (u8)r.below(2) : 0; int x = (int)r.below((u32)tot); s.op = 0; for (int k = 0; k < S_NUM; k++) { x -= w[k]; if (x < 0) { s.op = (u16)k; break; } } s.a = (u32)r.next(); s.b = (u32)r.next(); s.fault = 0; p.steps.push_back(s); }
        if (r.chance(1, thorough ? 200 : 150)) {   // more blocks than 12, 14 or 16 bits count, in the arena that has room for them
            g[K_FLOOD] = r.chance(1, 6) ? 70000 : r.chance(1, 2) ? 20000 : 5000; g[K_INST] = n - 1; g[K_TWO] = 0; g[K_TWIN] = 0; g[K_PROBE] = 40;
            p.steps.resize(std::min(p.steps.size(), (size_t)30)); for (int i = 0; i < 1 + (int)r.below(3); i++) { Step &q = p.steps[r.below((u32)p.steps.size())]; q.op = S_FLOOD; q.slot = 0; }
        }
    }
    std::string op_name(const Plan &, const Step &s) { return sname[s.op % S_NUM]; }
    std::string describe(const Plan &p) { char b[200]; const SmaApi &a = sma_apis()[(size_t)p.cfg[K_INST]]; snprintf(b, sizeof b, "StaticMemAllocator<%d,%d>, %d clients, size profile %d, second arena %d, twin %d", a.mem, a.max_block, p.cfg[K_CLIENTS], p.cfg[K_PROF], p.cfg[K_TWO], p.cfg[K_TWIN]); return b; }
    int n_simplify() { return 4; }
    bool simplify_cfg(Plan &p, int k) { int o[NCFG]; memcpy(o, p.cfg, sizeof o); if (k == 0) p.cfg[K_TWO] = 0; if (k == 1) { p.cfg[K_CLIENTS] = 1; } if (k == 2) p.cfg[K_TWIN] = 0; if (k == 3) p.cfg[K_PROBE] = 1; return memcmp(o, p.cfg, sizeof o) != 0; }

    struct Inst { SmaApi a; Shadow sh; bool clean; std::vector<char *> own[MAXC]; };
    Inst in[NI]; u64 uid; int nc, prof;
    u32 ncall; const std::vector<u64> *skip; bool record; int nprobe;

    long pick_size(const Inst &x, u32 a) {
        Rng r(a); long m = x.a.mem, q = x.a.max_block; long s;
        switch (prof) {
        case 0: s = r.range(1, 24); break;
        case 1: s = 8 * (long)r.range(1, 16); break;
        case 2: s = q - 20 + (long)r.below(60); break;                    // around the quick-block limit
        case 3: s = q + 1 + (long)r.below((u32)std::max(1L, m / 6)); break;
        case 4: s = 1L << r.below(12); s -= (long)r.below(3); break;
        case 5: s = (long)(8 + 8 * (ncall % 3)); break;
        case 6: s = 1 + (long)r.below((u32)std::max(2L, m / 3)); break;
        case 7: s = r.chance(1, 2) ? r.range(1, 40) : r.range(1, (int)std::max(2L, m / 8)); break;
        default: s = 8 * (1 + (long)r.below((u32)std::max(2L, std::min(q, m) / 8))); break;
        }
        return std::max(1L, std::min(s, m));
    }
    void verify(Inst &x, const char *when) {
        if (!c1 && !c3) return;
        size_t n = x.sh.live.size(), k = 0, budget = 1 << 15; size_t at = n ? (size_t)(ncall * 7) % n : 0; (void)at;
        for (auto &e : x.sh.live) { if (n > 300 && ((k + ncall) % 16) != 0 && k > 4) { k++; continue; } k++; if (!Shadow::intact(e.first, e.second)) fail(c1 ? "live-block-changed" : "merge-changed-block", "the contents of a live block of %ld bytes changed by %s", e.second.bytes, when); if (budget < (size_t)e.second.bytes) break; budget -= (size_t)e.second.bytes; }
    }
    void account(Inst &x, const char *when) {
        begin_op(20000000);
        int f = x.a.free_size(); log_u64((u64)f);
        if (c2 && f != x.sh.size - x.sh.used) fail("free-size", "reported free size %d after %s; arena %ld minus live blocks %ld is %ld", f, when, x.sh.size, x.sh.used, x.sh.size - x.sh.used);
        state(mix(x.sh.shape(), (u64)x.a.mem));
    }
    // every call of the allocator goes through these; a twin run leaves out the calls that were refused
    bool before_call(u64 &rec) { ncall++; rec = 0; if (skip && ncall - 1 < skip->size()) { rec = (*skip)[ncall - 1]; if (rec & 1) return false; } return true; }
    void after_call(Inst &x, bool refused, u64 rec, int result) {
        u64 d = 0;
        if (c2) { begin_op(20000000); d = mix(mix((u64)x.a.free_size(), (u64)x.a.max_free()), (u64)result) & ~1ull; }
        if (record && sh->scratch_n < (1u << 16)) sh->scratch[sh->scratch_n++] = d | (refused ? 1 : 0);
        if (skip && ncall - 1 < skip->size() && rec != d) fail("refused-call-had-effect", "call %u behaves differently (result %d, free %d, largest %d) when earlier refused or malformed calls are left out", ncall - 1, result, x.a.free_size(), x.a.max_free());
    }
    char *do_alloc(Inst &x, int cl, long n) {
        u64 rec; if (!before_call(rec)) return 0;
        int mx = -1; if (c2) { begin_op(20000000); mx = x.a.max_free(); }
        long run = x.sh.largest();
        begin_op(20000000);
        char *p = (char *)x.a.alloc((int)n);
        log_u64(p ? (u64)(p - x.sh.base) + 1 : 0);
        bool possible = n > 0 && n <= INT_MAX - 8 && Shadow::up(n) <= run;
        if (p) {
            if (n <= 0) fail("impossible-request-served", "a request for %ld bytes was served", n);
            const char *why = x.sh.add(p, n, cl, mix(++uid, 3), c1);
            if (why) fail("bad-block", "a block of %ld bytes %s", n, why);
            x.own[cl].push_back(p);
            if (c2 && n > mx) fail("largest-block", "a request for %ld bytes succeeded though the largest free block was reported as %d", n, mx);
        } else {
            if (n > 0 && Shadow::up(n) <= x.sh.size - x.sh.used) count(F_ARENA_FRAGMENTED_REFUSAL); else count(F_ARENA_EXHAUSTED);
            if (c2 && n > 0 && n <= mx) fail("largest-block", "a request for %ld bytes was refused though the largest free block was reported as %d", n, mx);
            if (c3 && x.clean && possible) fail("merge-incomplete", "a request for %ld bytes was refused after a merge though a contiguous run of %ld free bytes exists", n, run);
        }
        verify(x, p ? "an allocation" : "a refused request"); account(x, p ? "an allocation" : "a refused request");
        after_call(x, !p, rec, p != 0);
        return p;
    }
    void do_free(Inst &x, int cl, size_t i) {
        char *p = x.own[cl][i]; x.own[cl].erase(x.own[cl].begin() + (long)i);
        u64 rec; before_call(rec);
        if (c1 && !Shadow::intact(p, x.sh.live[p])) fail("live-block-changed", "a block's contents changed before its owner gave it back");
        long n = x.sh.live[p].bytes; x.sh.remove(p); x.clean = false;
        begin_op(20000000); bool ok = x.a.release(p, (int)n);
        if (c2 && !ok) fail("release-rejected", "the release of a live block of %ld bytes was rejected", n);
        log_u64((u64)(p - x.sh.base)); verify(x, "a release"); account(x, "a release"); after_call(x, false, rec, ok);
    }
    void do_merge(Inst &x) {
        if (p_->cfg[K_FLOOD] > 20000) return;      // quadratic in the number of free blocks
        u64 rec; before_call(rec); begin_op(4000000000ull); int f0 = x.a.free_size(), m0 = x.a.max_free(); x.a.merge();
        int f1 = x.a.free_size(), m1 = x.a.max_free(); if (m1 > m0) count(P_MERGE_RECOVERED);
        if ((c3 || c2) && f1 != f0) fail("merge-changed-free-size", "free size %d before a merge, %d after it", f0, f1);
        x.clean = true; verify(x, "a merge"); account(x, "a merge"); after_call(x, false, rec, 0);
    }
    // what would happen now? answered in a throwaway copy of the process
    void probe(Inst &x, Rng &r) {
        nprobe++;
        if (c2) {
            begin_op(20000000); int mx = x.a.max_free();
            long bigger[] = {(long)mx + 1, (long)mx + 8, (long)x.a.mem, mx + 1 + (long)r.below((u32)std::max(1, x.a.mem - mx)), (long)x.a.mem + 8, INT_MAX};
            int which = (int)r.below(7);
            run_sub([&] { begin_op(20000000);
                if (which == 0) { if (mx > 0 && !x.a.alloc(mx)) fail("largest-block", "a request for %d bytes was refused though the largest free block was reported as %d", mx, mx); if (mx <= 0 && x.a.alloc(1)) fail("largest-block", "a request succeeded though no free block was reported"); }
                else { long n = bigger[which - 1]; if (n > mx && x.a.alloc((int)n)) fail("largest-block", "a request for %ld bytes succeeded though the largest free block was reported as %d", n, mx); } });
        }
        if (c3 && x.clean) {
            std::vector<long> runs = x.sh.runs(); std::sort(runs.begin(), runs.end(), [](long a, long b) { return a > b; });
            if (runs.size() > 64) runs.resize(64);
            int over = (int)r.below(3);
            run_sub([&] { begin_op(200000000);
                if (over == 0 && !runs.empty() && runs[0] < x.a.mem && x.a.alloc((int)runs[0] + 1)) fail("merge-incomplete", "a request for %ld bytes succeeded, the largest contiguous run is %ld", runs[0] + 1, runs[0]);
                for (size_t i = 0; i < runs.size(); i++) { char *p = (char *)x.a.alloc((int)runs[i]); if (!p) fail("merge-incomplete", "after a merge the contiguous run of %ld free bytes (number %u by size) could not be allocated", runs[i], (unsigned)i); const char *why = x.sh.add(p, runs[i], 0, 1, false); if (why) fail("bad-block", "a block of %ld bytes %s", runs[i], why); } });
        }
    }
    void bad_call(Inst &x, u32 a) {
        Rng r(a); u64 rec; if (!before_call(rec)) return; count(F_BAD_CALL); begin_op(20000000); int k = (int)r.below(8); int m = x.a.mem;
        int neg[] = {-1, -8, INT_MIN, INT_MIN + 7, -m}; int big[] = {INT_MAX, INT_MAX - 3, INT_MAX - 7, m + 1, m + 8, 2 * m, 1 << 30};
        char *p = 0; bool rel = false, is_rel = false; int v = 0; log_u64((u64)k);
        switch (k) {
        case 0: p = (char *)x.a.alloc(v = 0); break;
        case 1: p = (char *)x.a.alloc(v = neg[r.below(5)]); break;
        case 2: case 3: p = (char *)x.a.alloc(v = big[r.below(7)]); break;
        case 4: is_rel = true; rel = x.a.release(0, v = 1 + (int)r.below(64)); break;
        case 5: is_rel = true; rel = x.a.release(0, v = 0); break;
        case 6: case 7: { is_rel = true; char *q = 0; for (int c = 0; c < MAXC && !q; c++) if (!x.own[c].empty()) q = x.own[c][r.below((u32)x.own[c].size())]; rel = x.a.release(q, v = k == 6 ? 0 : neg[r.below(5)]); break; }
        }
        if (p) fail(c2 ? "impossible-request-served" : "bad-block", "a request for %d bytes was served by an arena of %d bytes", v, m);
        if (is_rel && rel && c2) fail("invalid-release-accepted", "the release of %d bytes (a null address or a non-positive size) was accepted", v);
        verify(x, "a malformed call"); account(x, "a malformed call"); after_call(x, true, rec, 0);
    }
    void step(const Step &s, int idx) {
        set_step(idx); sh->res.steps++;
        Inst &x = in[s.slot % NI]; if (!x.a.mem) return; int cl = s.task % nc; std::vector<char *> &o = x.own[cl]; Rng r(mix(s.a, s.b));
        switch (s.op % S_NUM) {
        case S_ALLOC: do_alloc(x, cl, pick_size(x, s.a)); break;
        case S_FREE_ANY: if (!o.empty()) do_free(x, cl, s.a % o.size()); break;
        case S_FREE_LAST: if (!o.empty()) do_free(x, cl, o.size() - 1); break;
        case S_FREE_FIRST: if (!o.empty()) do_free(x, cl, 0); break;
        case S_DIE: count(F_CLIENT_DIED); while (!o.empty()) do_free(x, cl, r.below((u32)o.size())); break;
        case S_MERGE: do_merge(x); break;
        case S_BAD: bad_call(x, s.a); break;
        case S_ALLOC_MAX: { begin_op(20000000); int mx = x.a.max_free(); int d = (int)(s.a % 3); if (mx - 8 * d > 0) do_alloc(x, cl, mx - 8 * d); break; }
        case S_ALLOC_OVER: { begin_op(20000000); int mx = x.a.max_free(); do_alloc(x, cl, std::min((long)x.a.mem, (long)mx + 1 + (long)(s.a % 17))); break; }
        case S_REWRITE: for (char *p : o) { Block &b = x.sh.live[p]; b.pat = mix(++uid, 3); for (long i = 0; i < b.bytes; i++) p[i] = Shadow::pat_at(b.pat, i); } break;
        case S_FREE_NEIGHBOURS: {   // blocks that lie next to one another, released in a random order
            if (x.sh.live.empty()) break; auto it = x.sh.live.begin(); std::advance(it, (long)(s.a % x.sh.live.size())); std::vector<char *> v; size_t n = 2 + s.b % 6; for (; it != x.sh.live.end() && v.size() < n; ++it) v.push_back(it->first);
            while (!v.empty()) { size_t i = r.below((u32)v.size()); char *p = v[i]; v.erase(v.begin() + (long)i); int c = x.sh.live[p].owner; auto f = std::find(x.own[c].begin(), x.own[c].end(), p); do_free(x, c, (size_t)(f - x.own[c].begin())); }
            break; }
        case S_PROBE: probe(x, r); break;
        case S_DUMP: begin_op(200000000); x.a.dump(); break;
        case S_FILL: for (int i = 0; i < 600; i++) if (!do_alloc(x, cl, pick_size(x, s.a + (u32)i)) ) break; break;
        case S_FLOOD: flood(x, cl, r); break;
        case S_HANDOVER: if (!o.empty()) { size_t i = s.a % o.size(); char *p = o[i]; int c = (int)(s.b % (u32)nc); o.erase(o.begin() + (long)i); x.own[c].push_back(p); x.sh.live[p].owner = c; } break;
        case S_FREE_ALL: release_all(x, r); break;
        }
        if (!skip && (c2 || c3) && idx % std::max(1, p_->cfg[K_PROBE]) == 0) probe(x, r);
    }
    // a great many small blocks at once; judged at every call by the shadow arena, the accounts every 1024 calls
    void flood(Inst &x, int cl, Rng &r) {
        int want = p_->cfg[K_FLOOD]; std::vector<char *> v; int hi = (int)r.range(1, 2) * 8; ncall++; count(P_LONG_HISTORY);
        for (int i = 0; i < want; i++) {
            int n = (int)r.range(1, hi); begin_op(2000000); char *p = (char *)x.a.alloc(n);
            if (!p) { long run = x.sh.largest(); if (c3 && x.clean && Shadow::up(n) <= run) fail("merge-incomplete", "a request for %d bytes was refused after a merge though a contiguous run of %ld free bytes exists", n, run); break; }
            const char *why = x.sh.add(p, n, cl, mix(++uid, 3), c1); if (why) fail("bad-block", "a block of %d bytes %s", n, why);
            v.push_back(p); if (i % 1024 == 1023) flood_account(x);
        }
        log_u64(v.size()); flood_account(x);
        if (c2) { begin_op(20000000); int mx = x.a.max_free(); run_sub([&] { begin_op(20000000); if (mx > 0 && !x.a.alloc(mx)) fail("largest-block", "a request for %d bytes was refused though the largest free block was reported as %d", mx, mx); }); }
        // released from the top down (sorted lists make any other order slow), in one go or in strides
        std::sort(v.begin(), v.end()); size_t stride = want > 20000 || r.chance(1, 2) ? 1 : 2 + r.below(3);
        for (size_t k = 0; k < stride; k++) {
            for (size_t i = v.size(); i-- > 0;) {
                if (i % stride != k) continue;
                char *p = v[i]; Block b = x.sh.live[p]; if (c1 && !Shadow::intact(p, b)) fail("live-block-changed", "a block's contents changed before its owner gave it back");
                x.sh.remove(p); x.clean = false; begin_op(20000000); if (!x.a.release(p, (int)b.bytes) && c2) fail("release-rejected", "the release of a live block of %ld bytes was rejected", b.bytes);
                if (i % 1024 == 0) flood_account(x);
            }
            if (want <= 20000 && r.chance(1, 2)) { int f0 = x.a.free_size(); do_merge(x); if ((c2 || c3) && x.a.free_size() != f0) fail("merge-changed-free-size", "free size %d before a merge, %d after it", f0, x.a.free_size()); }
        }
        flood_account(x);
    }
    void flood_account(Inst &x) { begin_op(20000000); int f = x.a.free_size(); log_u64((u64)f); if (c2 && f != x.sh.size - x.sh.used) fail("free-size", "reported free size %d with %u live blocks; arena %ld minus live blocks %ld is %ld", f, (unsigned)x.sh.live.size(), x.sh.size, x.sh.used, x.sh.size - x.sh.used); }
    void release_all(Inst &x, Rng &r) { bool any = true; while (any) { any = false; for (int c = 0; c < nc; c++) if (!x.own[c].empty()) { any = true; do_free(x, c, r.chance(1, 3) ? r.below((u32)x.own[c].size()) : r.chance(1, 2) ? 0 : x.own[c].size() - 1); } } }
    const Plan *p_;
    void setup(const Plan &p) {
        p_ = &p; nc = std::min(std::max(1, p.cfg[K_CLIENTS]), (int)MAXC - 1); prof = p.cfg[K_PROF]; uid = p.seed & 0xffff; ncall = 0; nprobe = 0;
        for (int i = 0; i < NI; i++) {
            Inst &x = in[i]; memset(&x.a, 0, sizeof x.a);
            int k = i == 0 ? p.cfg[K_INST] : p.cfg[K_TWO] - 1; if (k < 0 || (i == 1 && k == p.cfg[K_INST])) continue;
            x.a = sma_apis()[(size_t)k % sma_apis().size()]; x.sh = Shadow(); x.clean = true; for (auto &o : x.own) o.clear();
            // where the arena is: a fresh arena serves one request for all of it
            u32 save = sh->aux[0]; (void)save; memset(sh->aux, 0, 16);
            run_sub([&] { begin_op(20000000); char *q = (char *)x.a.alloc(x.a.mem); if (!q && !c1) fail(c2 ? "largest-block" : "merge-incomplete", "a new arena of %d bytes refuses a request for all of it", x.a.mem); u64 v = (u64)q; memcpy(sh->aux, &v, 8); });
            u64 v; memcpy(&v, sh->aux, 8); x.sh.base = (char *)v; x.sh.size = x.a.mem;
            if (!v) { run_sub([&] { u64 b = (u64)x.a.alloc(8); memcpy(sh->aux, &b, 8); }); memcpy(&v, sh->aux, 8); x.sh.base = (char *)v; }
        }
        if (in[1].a.mem && in[0].sh.base < in[1].sh.base + in[1].sh.size && in[1].sh.base < in[0].sh.base + in[0].sh.size) fail("bad-block", "two arenas overlap");
    }
    void run(const Plan &p) {
        for (size_t i = 0; i < p.steps.size(); i++) { if (ncall > 20000) break; step(p.steps[i], (int)i); }
        Rng r(p.seed);
        for (auto &x : in) if (x.a.mem) {
            release_all(x, r); do_merge(x);
            if (c2 || c3) { begin_op(20000000); int f = x.a.free_size(); if (f != x.a.mem) fail(c2 ? "free-size" : "merge-incomplete", "%d of %d bytes are free after every client released its memory", f, x.a.mem); }
            if (p.cfg[K_FLOOD] > 20000) continue;
            do_alloc(x, 0, x.a.mem); if (!x.own[0].empty()) do_free(x, 0, 0);
        }
    }
    void exec(const Plan &p, const std::string &c) {
        c1 = c == "C01"; c2 = c == "C02"; c3 = c == "C03"; skip = 0; record = false; std::vector<u64> rec;
        setup(p);
        if (c2 && p.cfg[K_TWIN]) { count(F_TWIN_RUN); sh->scratch_n = 0; run_sub([&] { record = true; run(p); }); rec.assign(sh->scratch, sh->scratch + sh->scratch_n); skip = &rec; }
        run(p);
    }
};
World *make_world() { return new SmaWorld(); }
}
