// Deterministic simulator for DStruct: engine interface.
//
// One run = one forked child = one Plan. A Plan is a pure function of (seed, run index); executing it is a
// pure function of the plan and the code. Nothing below reads a clock, an address chosen by the kernel, or
// any randomness other than the plan's own PRNG streams.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cassert>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <new>

namespace sim {

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ---------------------------------------------------------------- randomness: one seed decides everything
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((u32)(hi - lo + 1)); }   // inclusive
    bool chance(int num, int den) { return (int)below((u32)den) < num; }
};
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// ---------------------------------------------------------------- plan
struct Step { u8 task, slot; u16 op; u32 a, b; u32 fault; };   // fault: see FAULT_*
struct Slice { u8 task; u32 quantum; };                        // run `task` for `quantum` ticks
enum { FAULT_NONE = 0, FAULT_KILL = 1u << 28, FAULT_ALLOC = 2u << 28, FAULT_KIND = 0xfu << 28, FAULT_ARG = 0x0fffffffu };
enum { NCFG = 48 };
struct Plan {
    u64 seed; int cfg[NCFG];
    std::vector<Step> steps; std::vector<Slice> slices;
    Plan() : seed(0) { memset(cfg, 0, sizeof cfg); }
};

// ---------------------------------------------------------------- counters (faults actually delivered, probes)
enum Counter {
    F_PREEMPT, F_PREEMPT_MIDOP, F_PREEMPT_CALLBACK, F_TASK_KILLED_MIDOP, F_TASK_KILLED_BETWEEN_OPS, F_ALLOC_REFUSED,
    F_ADDR_REUSED_AT_ONCE, F_ADDR_REUSED, F_ADDR_DESCENDING, F_ADDR_ODD8, F_FRESH_STALE, F_FRESH_JUNK, F_FREED_SCRAMBLED,
    F_ARENA_EXHAUSTED, F_ARENA_FRAGMENTED_REFUSAL, F_CLIENT_DIED, F_BAD_CALL, F_COMPACTION, F_STOP_ON_EXHAUSTION,
    F_ALIASED_ARG, F_SELF_ASSIGN, F_REUSE_AFTER_MOVE, F_TWIN_RUN, F_SOLO_RUN, F_ALLOC, F_FREE, F_ERASE_IN_LOOP, F_READER_SLICE, F_ARENA_SHARED, F_ARENA_HOLE, F_ARENA_MERGED_BY_OTHER,
    F_PREEMPT_HOT, P_GROW, P_SHRINK, P_BECAME_EMPTY, P_DUPLICATE, P_ABSENT, P_TWO_CHILDREN, P_ROOT_REMOVED, P_MERGE_RECOVERED, P_LONG_HISTORY, P_BIG, P_HANDLE_SURVIVED, P_STATIC_STORE, P_RESCHEDULED,
    NCOUNTER
};
extern const char *counter_name[NCOUNTER];

// ---------------------------------------------------------------- result of one run (shared memory)
struct Result {
    int status;                 // 0 running/never finished, 1 ok, 2 violation, 3 harness error
    char cls[64]; char msg[600];
    u64 hash, sched_hash, ticks; u32 steps; int at_step;
    u64 cnt[NCOUNTER];
};
enum { STATE_BITS = 22, PC_BITS = 16 };
struct Shared {
    Result res;
    u8 states[1 << (STATE_BITS - 3)];
    u8 pcs[1 << (PC_BITS - 3)];
    u32 scratch_n; u64 scratch[1 << 16];     // per-run exchange between twin runs
    u32 aux[1 << 12];
};
extern Shared *sh;

void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void finish_ok() __attribute__((noreturn));
inline void count(Counter c, u64 n = 1) { sh->res.cnt[c] += n; }
inline void log_u64(u64 x) { sh->res.hash = mix(sh->res.hash, x); }
inline void state(u64 h) { h = mix(0x51ed27, h); u32 i = (u32)h & ((1u << STATE_BITS) - 1); sh->states[i >> 3] |= (u8)(1u << (i & 7)); }

// ---------------------------------------------------------------- logical time, preemption, fibers
extern bool g_in_lib;            // library code is running (ticks count, preemption possible)
extern int g_no_preempt;         // >0: simulator code that must be atomic
extern u64 g_ticks;
extern u64 g_op_deadline;        // g_ticks limit of the running operation (hang detection)
extern int g_cur_task;           // -1: simulator
extern char *g_stack_low;        // lowest stack address seen inside library code since reset
extern u64 g_op_budget;          // every call into the library gets this much
struct LibScope { bool old; LibScope() : old(g_in_lib) { if (!old && g_op_deadline != ~0ull && g_op_deadline < g_ticks + g_op_budget) g_op_deadline = g_ticks + g_op_budget; g_in_lib = true; } ~LibScope() { g_in_lib = old; } };
struct Atomic { Atomic() { g_no_preempt++; } ~Atomic() { g_no_preempt--; } };
void begin_op(u64 budget);       // reset the hang budget
// run tasks: body(t) executes task t from start to end; slices decide the interleaving
void run_tasks(int n, const std::function<void(int)> &body, const std::vector<Slice> &slices);
// hot accesses: the running task touches memory that other tasks may see (static storage, or what `g_shared` says);
// at such an access it is preempted with `percent` probability and another task runs for a while (clang build only)
void hot_points(int percent, u64 seed);
extern const char *g_own_lo, *g_own_hi;
extern bool (*g_shared)(const void *p, bool store);
void arm_kill(u32 ticks_from_now);   // the running task dies after that many ticks of library code
bool task_dead(int t);
void yield_point();                  // a place between operations where an exhausted slice takes effect
void kill_self_between_ops();        // the running task dies now
extern bool g_in_callback;

// ---------------------------------------------------------------- "the program was stopped by a deliberate fault"
// Runs f; returns 0 if it returned, 1 if it was stopped by a deliberate fault (null page access, abort, trap).
// Any other fault is a violation of class `cls`.
int run_stoppable(const std::function<void()> &f);
extern char g_stop_desc[128];

// ---------------------------------------------------------------- engine entry
struct World {
    virtual ~World() {}
    virtual void gen(Plan &p, Rng &r, const std::string &check, bool thorough) = 0;
    virtual bool vary(Plan &p, Rng &r, const std::string &check) { (void)p; (void)r; (void)check; return false; }   // the same operations under another schedule
    virtual void exec(const Plan &p, const std::string &check) = 0;
    virtual void warmup(const std::string &check) { (void)check; }            // once per worker, before any fork
    virtual std::string op_name(const Plan &p, const Step &s) { char b[32]; snprintf(b, sizeof b, "op%u", s.op); (void)p; return b; }
    virtual std::string describe(const Plan &p) { (void)p; return ""; }
    virtual bool simplify_cfg(Plan &p, int k) { (void)p; (void)k; return false; } // k-th configuration simplification, false if none
    virtual int n_simplify() { return 0; }
};
World *make_world();
int engine_main(int argc, char **argv);
void set_step(int i);
void run_sub(const std::function<void()> &f);   // run f in a throwaway copy of the process that shares `sh`; a verdict reached there is this run's verdict
}
#endif
