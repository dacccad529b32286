// Deterministic simulator for DStruct: engine. Not instrumented.
#include <sys/personality.h>
#include "core.hpp"
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

const char *counter_name[NCOUNTER] = {
    "preemptions", "preemptions_mid_operation", "preemptions_inside_element_or_comparator_callback", "task_killed_mid_operation", "task_killed_between_operations",
    "allocation_refused", "address_reused_at_once", "address_reused", "address_descending", "address_8_mod_16", "fresh_storage_stale_contents", "fresh_storage_junk",
    "freed_storage_scrambled", "arena_exhausted", "arena_refusal_by_fragmentation", "client_died", "malformed_call", "compaction_forced", "program_stop_on_exhaustion",
    "argument_aliases_container", "self_assignment", "reuse_after_move", "twin_run", "solo_run", "allocations", "releases", "erase_while_iterating", "reader_slices", "arena_shared_with_other_client", "arena_hole_left_by_other_client", "arena_merged_by_other_client", "preemptions_at_access_to_shared_memory",
    "probe_storage_grew", "probe_storage_shrank", "probe_became_empty", "probe_duplicate", "probe_absent", "probe_two_children_removed", "probe_root_removed",
    "probe_merge_recovered_run", "probe_long_history", "probe_more_than_65536_elements", "probe_handle_survived", "stores_to_static_storage", "same_operations_under_another_schedule"
};

Shared *sh;
bool g_in_lib; int g_no_preempt; u64 g_ticks; u64 g_op_deadline = ~0ull, g_op_budget; int g_cur_task = -1; char *g_stack_low; bool g_in_callback;
char g_stop_desc[128];
static int g_cur_step = -1;
static std::string g_check;
static bool g_quiet_child = true;

static void put_verdict(int st, const char *cls, const char *fmt, va_list ap) {
    Result &r = sh->res;
    if (r.status) return;
    snprintf(r.cls, sizeof r.cls, "%s", cls);
    vsnprintf(r.msg, sizeof r.msg, fmt, ap);
    r.ticks = g_ticks; r.at_step = g_cur_step; r.status = st;
}
void fail(const char *cls, const char *fmt, ...) { g_in_lib = false; va_list ap; va_start(ap, fmt); put_verdict(2, cls, fmt, ap); va_end(ap); _exit(2); }
void harness_error(const char *fmt, ...) { g_in_lib = false; va_list ap; va_start(ap, fmt); put_verdict(3, "harness", fmt, ap); va_end(ap); _exit(3); }
void finish_ok() { g_in_lib = false; sh->res.ticks = g_ticks; sh->res.status = 1; _exit(0); }

// ---------------------------------------------------------------- fibers
enum { MAX_TASK = 8 };
static const size_t STACK_SIZE = 1u << 20;
static char *const STACK_BASE = (char *)0x300000000000ull;
struct Fiber { ucontext_t ctx; bool started, done, dead, in_lib, in_cb; int nop; u64 deadline, used; bool kill_armed; u64 kill_at; char *low; };
static Fiber g_fib[MAX_TASK];
static ucontext_t g_main_ctx;
static u64 g_slice_end = ~0ull;      // g_ticks at which the running task is preempted
static int g_hot; static Rng g_hot_rng(1); static bool g_hot_now; bool (*g_shared)(const void *, bool);
void hot_points(int percent, u64 seed) { g_hot = percent; g_hot_rng = Rng(mix(seed, 0x407)); }
static const std::function<void(int)> *g_body;
static int g_ntask;

static void switch_to_main() {
    Fiber &f = g_fib[g_cur_task];
    f.in_lib = g_in_lib; f.in_cb = g_in_callback; f.nop = g_no_preempt; f.deadline = g_op_deadline == ~0ull ? ~0ull : g_op_deadline - g_ticks;
    f.low = g_stack_low; g_in_lib = false;
    swapcontext(&f.ctx, &g_main_ctx);
}
static void fiber_entry() {
    int t = g_cur_task;
    (*g_body)(t);
    g_fib[t].done = true;
    g_in_lib = false;
    swapcontext(&g_fib[t].ctx, &g_main_ctx);
    abort();
}
bool task_dead(int t) { return g_fib[t].dead; }
void arm_kill(u32 n) { if (g_cur_task < 0) return; Fiber &f = g_fib[g_cur_task]; f.kill_armed = true; f.kill_at = g_ticks + n; if (f.kill_at < g_slice_end) g_slice_end = f.kill_at; }
void kill_self_between_ops() { if (g_cur_task < 0) return; count(F_TASK_KILLED_BETWEEN_OPS); g_fib[g_cur_task].dead = true; switch_to_main(); abort(); }

static void slice_point() {                      // called when g_ticks >= g_slice_end
    if (g_cur_task < 0) { g_slice_end = ~0ull; return; }
    Fiber &f = g_fib[g_cur_task];
    if (f.kill_armed && g_ticks >= f.kill_at) { count(F_TASK_KILLED_MIDOP); f.dead = true; log_u64(0xdead00 + g_cur_task); switch_to_main(); abort(); }
    count(F_PREEMPT); if (g_in_lib) count(F_PREEMPT_MIDOP); if (g_in_callback) count(F_PREEMPT_CALLBACK);
    switch_to_main();
}
void yield_point() { if (g_cur_task >= 0 && g_ticks >= g_slice_end && !g_no_preempt) slice_point(); }
void run_tasks(int n, const std::function<void(int)> &body, const std::vector<Slice> &slices) {
    if (n > MAX_TASK) harness_error("too many tasks");
    g_ntask = n; g_body = &body;
    for (int i = 0; i < n; i++) {
        Fiber &f = g_fib[i]; memset(&f, 0, sizeof f);
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = STACK_BASE + (size_t)i * 2 * STACK_SIZE + STACK_SIZE; f.ctx.uc_stack.ss_size = STACK_SIZE; f.ctx.uc_link = 0;
        makecontext(&f.ctx, fiber_entry, 0);
        f.deadline = ~0ull; f.low = (char *)~0ull;
    }
    size_t si = 0; int rr = 0;
    for (;;) {
        int t = -1; u64 q = ~0ull;
        bool any = false;
        for (int i = 0; i < n; i++) if (!g_fib[i].done && !g_fib[i].dead) any = true;
        if (!any) break;
        if (g_hot_now) {   // someone else gets a long turn
            g_hot_now = false; int live = 0; for (int i = 0; i < n; i++) live += !g_fib[i].done && !g_fib[i].dead;
            int k = (int)g_hot_rng.below((u32)live); for (t = 0; ; t++) if (!g_fib[t].done && !g_fib[t].dead && k-- == 0) break;
            u32 m = 1u << g_hot_rng.range(0, 12); q = m + g_hot_rng.below(m);
        }
        else if (si < slices.size()) { t = slices[si].task % n; q = slices[si].quantum; si++; if (g_fib[t].done || g_fib[t].dead) continue; }
        else { while (g_fib[rr % n].done || g_fib[rr % n].dead) rr++; t = rr % n; }
        Fiber &f = g_fib[t];
        g_cur_task = t; g_in_lib = f.in_lib; g_in_callback = f.in_cb; g_no_preempt = f.nop; g_op_deadline = f.deadline == ~0ull ? ~0ull : g_ticks + f.deadline;
        g_stack_low = f.low;
        g_slice_end = q == ~0ull ? ~0ull : g_ticks + q;
        if (f.kill_armed && f.kill_at < g_slice_end) g_slice_end = f.kill_at;
        sh->res.sched_hash = mix(sh->res.sched_hash, mix(t, f.used));
        u64 t0 = g_ticks;
        swapcontext(&g_main_ctx, &f.ctx);
        f.used += g_ticks - t0;
        log_u64(mix(t, g_ticks));
        g_cur_task = -1; g_in_lib = false; g_in_callback = false; g_no_preempt = 0; g_op_deadline = ~0ull; g_slice_end = ~0ull;
    }
}
void begin_op(u64 budget) { g_op_budget = budget; g_op_deadline = g_ticks + budget; }

// ---------------------------------------------------------------- ticks: compiler-inserted callbacks
static inline __attribute__((always_inline)) void tick(void *pc) {
    if (!g_in_lib) return;
    g_ticks++;
    u32 h = (u32)((uintptr_t)pc * 0x9E3779B1u) >> (32 - PC_BITS);
    sh->pcs[h >> 3] |= (u8)(1u << (h & 7));
    char *sp = (char *)__builtin_frame_address(0);
    if (sp < g_stack_low) g_stack_low = sp;
    if (g_ticks >= g_op_deadline) fail("no-progress", "an operation did not finish within its step budget (%llu basic blocks or accesses)", (unsigned long long)g_ticks);
    if (g_ticks >= g_slice_end && !g_no_preempt) slice_point();
}
extern "C" char __data_start, _end;
const char *g_own_lo, *g_own_hi;      // the tracked elements' own counters
static inline bool hot_static(const char *p) {
    if (p < &__data_start || p >= &_end) return false;
    // the simulator's own switches, which library scopes flip
    const char *own[] = {(char *)&g_in_lib, (char *)&g_no_preempt, (char *)&g_in_callback, (char *)&sh, (char *)&g_ticks, (char *)&g_stack_low, (char *)&g_shared};
    for (const char *o : own) if (p >= o && p < o + 8) return false;
    return true;
}
static inline __attribute__((always_inline)) void access(const char *p, bool store, void *pc) {
    bool st = g_in_lib && hot_static(p); if (st && store && (p < g_own_lo || p >= g_own_hi)) count(P_STATIC_STORE);
    if (g_hot && g_in_lib && g_cur_task >= 0 && !g_no_preempt && (st || (g_shared && g_shared(p, store))) && g_hot_rng.below(100) < (u32)g_hot) { count(F_PREEMPT_HOT); g_hot_now = true; if (g_slice_end > g_ticks + 1) g_slice_end = g_ticks + 1; }
    tick(pc);
}
extern "C" {
void __sanitizer_cov_trace_pc(void) { tick(__builtin_return_address(0)); }
#define ACC(name) void name(void *p) { access((const char *)p, #name[16] == 's', __builtin_return_address(0)); }
ACC(__sanitizer_cov_load1) ACC(__sanitizer_cov_load2) ACC(__sanitizer_cov_load4) ACC(__sanitizer_cov_load8) ACC(__sanitizer_cov_load16)
ACC(__sanitizer_cov_store1) ACC(__sanitizer_cov_store2) ACC(__sanitizer_cov_store4) ACC(__sanitizer_cov_store8) ACC(__sanitizer_cov_store16)
}

// initialisation of a function's static object: atomic, as the language has it (tasks are fibers of one thread, which libstdc++'s
// guard would take for recursion)
extern "C" {
int __cxa_guard_acquire(u64 *g) { if (*(volatile char *)g) return 0; ++g_no_preempt; return 1; }
void __cxa_guard_release(u64 *g) { *(volatile char *)g = 1; --g_no_preempt; }
void __cxa_guard_abort(u64 *) { --g_no_preempt; }
}

// ---------------------------------------------------------------- faults raised by the code under test
static sigjmp_buf g_stop_jmp; static volatile sig_atomic_t g_stoppable;
static char g_altstack[1 << 16];
static void on_signal(int sig, siginfo_t *si, void *) {
    bool was_lib = g_in_lib; g_in_lib = false;
    uintptr_t a = (sig == SIGSEGV || sig == SIGBUS) ? (uintptr_t)si->si_addr : 0;
    bool deliberate = (sig == SIGSEGV && si->si_code == SEGV_MAPERR && a < 4096) || sig == SIGABRT || sig == SIGILL || sig == SIGTRAP;
    if (g_stoppable && deliberate) {
        snprintf(g_stop_desc, sizeof g_stop_desc, "signal %d at %p", sig, (void *)a);
        g_stoppable = 0;
        siglongjmp(g_stop_jmp, 1);
    }
    if (sig == SIGALRM) { if (!sh->res.status) { snprintf(sh->res.cls, sizeof sh->res.cls, "wall-clock"); snprintf(sh->res.msg, sizeof sh->res.msg, "real-time backstop"); sh->res.status = 3; } _exit(3); }
    if (!sh->res.status) {
        const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGFPE ? "SIGFPE" : "SIGTRAP";
        snprintf(sh->res.cls, sizeof sh->res.cls, "crash");
        char *sp = (char *)__builtin_frame_address(0); (void)sp;
        bool guard = a >= (uintptr_t)STACK_BASE && a < (uintptr_t)STACK_BASE + MAX_TASK * 2 * STACK_SIZE;
        snprintf(sh->res.msg, sizeof sh->res.msg, "%s%s%s in %s", n, guard ? " (stack exhausted)" : deliberate ? " (null page or abort)" : " (wild access)", g_stoppable ? " while an injected fault was pending" : "", was_lib ? "library code" : "simulator code");
        sh->res.ticks = g_ticks; sh->res.at_step = g_cur_step; sh->res.status = 2;
    }
    _exit(2);
}
int run_stoppable(const std::function<void()> &f) {
    bool lib = g_in_lib; int np = g_no_preempt; bool cb = g_in_callback;
    g_stop_desc[0] = 0;
    if (sigsetjmp(g_stop_jmp, 1)) { g_in_lib = lib; g_no_preempt = np; g_in_callback = cb; return 1; }
    g_stoppable = 1; f(); g_stoppable = 0;
    return 0;
}
static void install_handlers() {
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP, SIGALRM};
    for (int s : sigs) sigaction(s, &sa, 0);
}

// ---------------------------------------------------------------- plans as text
static std::string plan_text(World *w, const Plan &p, const Result *r) {
    std::string o; char b[256];
    snprintf(b, sizeof b, "plan 1\ncheck %s\nseed %llu\n", g_check.c_str(), (unsigned long long)p.seed); o += b;
    if (r) { o += "# class: "; o += r->cls; o += "\n# what: "; std::string m = r->msg; for (char &c : m) if (c == '\n') c = ' '; o += m + "\n"; }
    o += "# config: " + w->describe(p) + "\n";
    o += "cfg"; for (int i = 0; i < NCFG; i++) { snprintf(b, sizeof b, " %d", p.cfg[i]); o += b; } o += "\n";
    for (auto &s : p.steps) { snprintf(b, sizeof b, "step %u %u %u %u %u %u", s.task, s.slot, s.op, s.a, s.b, s.fault); o += b; o += "  # " + w->op_name(p, s) + "\n"; }
    for (auto &s : p.slices) { snprintf(b, sizeof b, "slice %u %u\n", s.task, s.quantum); o += b; }
    if (r) { snprintf(b, sizeof b, "expect %016llx %s\n", (unsigned long long)r->hash, r->cls); o += b; }
    return o;
}
static bool plan_parse(const char *path, Plan &p, u64 &hash, std::string &cls) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char line[4096]; hash = 0;
    while (fgets(line, sizeof line, f)) {
        char *h = strchr(line, '#'); if (h) *h = 0;
        unsigned v[6]; unsigned long long x; char c[64];
        if (sscanf(line, "seed %llu", &x) == 1) p.seed = x;
        else if (sscanf(line, "check %63s", c) == 1) g_check = c;
        else if (!strncmp(line, "cfg", 3)) { char *q = line + 3; for (int i = 0; i < NCFG; i++) p.cfg[i] = (int)strtol(q, &q, 10); }
        else if (sscanf(line, "step %u %u %u %u %u %u", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6) { Step s = {(u8)v[0], (u8)v[1], (u16)v[2], v[3], v[4], v[5]}; p.steps.push_back(s); }
        else if (sscanf(line, "slice %u %u", v, v + 1) == 2) { Slice s = {(u8)v[0], v[1]}; p.slices.push_back(s); }
        else if (sscanf(line, "expect %llx %63s", &x, c) == 2) { hash = x; cls = c; }
    }
    fclose(f); return true;
}

// ---------------------------------------------------------------- one run
static int g_backstop = 120;
// the run executes on a stack of its own, always at the same address and zero at the start, so that even reads of
// uninitialised stack memory by the code under test repeat exactly
static char *const EXEC_STACK = (char *)0x310000000000ull; static const size_t EXEC_STACK_SIZE = 8u << 20;
static World *g_exec_w; static const Plan *g_exec_p;
static void exec_entry() { g_exec_w->exec(*g_exec_p, g_check); finish_ok(); }
static Result run_plan(World *w, const Plan &p) {
    memset(&sh->res, 0, sizeof sh->res); sh->scratch_n = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        if (g_quiet_child) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); dup2(d, 1); }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        install_handlers();
        alarm((unsigned)g_backstop);
        sh->res.hash = 0x5eed; g_stack_low = (char *)~0ull;
        g_exec_w = w; g_exec_p = &p;
        ucontext_t c, back; getcontext(&c); c.uc_stack.ss_sp = EXEC_STACK; c.uc_stack.ss_size = EXEC_STACK_SIZE; c.uc_link = 0;
        makecontext(&c, exec_entry, 0); swapcontext(&back, &c); abort();
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {}
    Result r = sh->res;
    if (r.status == 0) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { r.status = 2; snprintf(r.cls, sizeof r.cls, "bad-access"); snprintf(r.msg, sizeof r.msg, "AddressSanitizer report"); }
        else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { r.status = 2; snprintf(r.cls, sizeof r.cls, "crash"); snprintf(r.msg, sizeof r.msg, "killed by signal %d", WTERMSIG(st)); }
        else if (WIFEXITED(st)) { r.status = 2; snprintf(r.cls, sizeof r.cls, "exit"); snprintf(r.msg, sizeof r.msg, "the code under test ended the process with status %d", WEXITSTATUS(st)); }
        else { r.status = 3; snprintf(r.cls, sizeof r.cls, "harness"); snprintf(r.msg, sizeof r.msg, "run ended with wait status %x", st); }
    }
    return r;
}
void run_sub(const std::function<void()> &f) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) harness_error("fork failed");
    if (pid == 0) { Result keep = sh->res; (void)keep; f(); _exit(0); }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {}
    if (sh->res.status) _exit(sh->res.status == 1 ? 0 : sh->res.status);          // decided there
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) harness_error("a sub-run was killed");
    if (st) fail(WIFEXITED(st) && WEXITSTATUS(st) == 66 ? "bad-access" : "crash", "a sub-run of the code under test ended with wait status %x", st);
}

// ---------------------------------------------------------------- minimisation
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Shrinker {
    World *w; std::string cls; double until; int tries;
    bool bad(const Plan &p) { tries++; Result r = run_plan(w, p); return r.status == 2 && cls == r.cls; }
    bool left() { return now_s() < until && tries < 4000; }
    template <class V> void ddmin(Plan &p, V Plan::*mem) {
        size_t n = (p.*mem).size(); if (!n) return;
        { Plan q = p; (q.*mem).clear(); if (bad(q)) { p = q; return; } }
        for (size_t chunk = (n + 1) / 2; chunk >= 1 && left(); ) {
            bool any = false;
            for (size_t i = 0; i < (p.*mem).size() && left(); ) {
                Plan q = p; auto &v = q.*mem;
                size_t e = std::min(v.size(), i + chunk);
                v.erase(v.begin() + (long)i, v.begin() + (long)e);
                if (bad(q)) { p = q; any = true; } else i += chunk;
            }
            if (chunk == 1 && !any) break;
            chunk = chunk == 1 ? 1 : chunk / 2;
        }
    }
    Plan run(Plan p) {
        for (int round = 0; round < 2 && left(); round++) {
            ddmin(p, &Plan::slices); ddmin(p, &Plan::steps);
            for (int k = 0; k < w->n_simplify() && left(); k++) { Plan q = p; if (w->simplify_cfg(q, k) && bad(q)) p = q; }
            for (size_t i = 0; i < p.steps.size() && left(); i++) {
                static const u32 small[] = {0, 1, 2, 3, 5, 8};
                for (int which = 0; which < 3; which++) for (u32 s : small) {
                    Plan q = p; u32 &x = which == 0 ? q.steps[i].a : which == 1 ? q.steps[i].b : q.steps[i].fault;
                    if (which == 2) { if ((x & FAULT_KIND) == 0 || s) break; x = 0; } else { if (x <= s) break; x = s; }
                    if (!left()) break;
                    if (bad(q)) { p = q; break; }
                }
            }
            for (size_t i = 0; i < p.slices.size() && left(); i++) for (u32 d = 2; d <= 16; d *= 2) { Plan q = p; if (q.slices[i].quantum > d) { q.slices[i].quantum /= d; if (bad(q)) p = q; } }
        }
        return p;
    }
};

static void write_file(const std::string &path, const std::string &s) { FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(3); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void merge_bits(const std::string &path, const u8 *b, size_t n) { FILE *f = fopen(path.c_str(), "w"); if (f) { fwrite(b, 1, n, f); fclose(f); } }

// a run counts as non-trivial when it did at least two operations and the simulator's choices showed in it
static bool nontrivial(const Result &r) {
    if (r.steps < 2) return false;
    static const Counter f[] = {F_PREEMPT, F_TASK_KILLED_MIDOP, F_TASK_KILLED_BETWEEN_OPS, F_ALLOC_REFUSED, F_ADDR_REUSED, F_ADDR_DESCENDING, F_ADDR_ODD8, F_FRESH_STALE, F_FRESH_JUNK, F_FREED_SCRAMBLED, F_ARENA_EXHAUSTED, F_ARENA_FRAGMENTED_REFUSAL, F_CLIENT_DIED, F_BAD_CALL, F_COMPACTION, F_STOP_ON_EXHAUSTION, F_TWIN_RUN, P_MERGE_RECOVERED, F_ARENA_HOLE};
    for (Counter c : f) if (r.cnt[c]) return true;
    return false;
}
static void write_set(const std::string &path, const std::set<u64> &s) { std::vector<u64> v(s.begin(), s.end()); FILE *f = fopen(path.c_str(), "w"); if (f) { fwrite(v.data(), 8, v.size(), f); fclose(f); } }
static u64 plan_seed(u64 seed, u64 idx) { Rng r(mix(seed * 0x2545F4914F6CDD1Dull + 7, idx)); return r.next(); }
static Plan make_plan(World *w, u64 seed, u64 idx, bool thorough) { Plan p; p.seed = plan_seed(seed, idx); Rng r(p.seed); w->gen(p, r, g_check, thorough); return p; }

enum { NVARY = 16, VARY_MAX = 300 };
int engine_main(int argc, char **argv) {
    std::string cmd = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> o; std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; i++; } else pos.push_back(a); }
    g_check = o["check"];
    bool thorough = o["tier"] == "thorough";
    u64 seed = strtoull(o["seed"].c_str(), 0, 10);
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    for (int i = 0; i < MAX_TASK; i++) {
        void *m = mmap(STACK_BASE + (size_t)i * 2 * STACK_SIZE, 2 * STACK_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED || mprotect((char *)m + STACK_SIZE, STACK_SIZE, PROT_READ | PROT_WRITE)) { perror("stack"); return 3; }
    }
    if (mmap(EXEC_STACK, EXEC_STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) { perror("stack"); return 3; }
    World *w = make_world();
    if (o.count("show")) g_quiet_child = false;
    if (cmd == "batch") {
        u64 from = strtoull(o["from"].c_str(), 0, 10), to = strtoull(o["to"].c_str(), 0, 10), stride = strtoull(o["stride"].c_str(), 0, 10);
        double secs = atof(o["secs"].c_str()); std::string out = o["out"];
        u64 dup = strtoull(o["dup"].c_str(), 0, 10);
        w->warmup(g_check);
        double t0 = now_s(); u64 runs = 0, ticks = 0, steps = 0; u64 cnt[NCOUNTER]; memset(cnt, 0, sizeof cnt);
        std::set<u64> scheds; std::set<u64> dist; u64 nviol = 0; std::string hashes; bool err = false; u64 dups = 0, nvaried = 0; u64 digest = 0; u64 last = from;
        std::string report;
        for (u64 i = from; i < to; i += stride) {
            if (secs > 0 && now_s() - t0 > secs) break;
            // a run whose operations stored to static storage is repeated under other schedules of the same operations
            Plan first = make_plan(w, seed, i, thorough); bool stop = false;
            for (int v = 0, nv = 0; v <= nv && !stop; v++) {
                Plan p = first;
                if (v) { if (secs > 0 && now_s() - t0 > secs) break; Rng vr(mix(first.seed, 0xabc0000 + (u64)v)); if (!w->vary(p, vr, g_check)) break; p.seed = mix(first.seed, (u64)v); cnt[P_RESCHEDULED]++; }
                Result r = run_plan(w, p);
                if (!v && r.status == 1 && r.cnt[P_STATIC_STORE] && nvaried < VARY_MAX) { nv = NVARY; nvaried++; }
                runs++; ticks += r.ticks; steps += r.steps; last = i;
                for (int k = 0; k < NCOUNTER; k++) cnt[k] += r.cnt[k];
                if (r.cnt[F_PREEMPT] && scheds.size() < 4000000) scheds.insert(r.sched_hash);
                if (nontrivial(r) && dist.size() < 4000000) dist.insert(r.hash);
                if (!v && (i == from || (i - from) / stride == 7)) { std::string t = plan_text(w, p, 0); if (t.size() > 6000) { t.resize(6000); t += "..."; } write_file(out + ".sample" + (i == from ? "0" : "1"), t); }
                if (r.status == 3) { report += "ERROR " + std::to_string(i) + " " + r.cls + ": " + r.msg + "\n"; err = stop = true; break; }
                if (r.status == 1) digest ^= mix(i + ((u64)v << 40), r.hash);
                if (!v && dup && i % dup == 0) { Result q = run_plan(w, p); dups++; if (q.hash != r.hash || q.status != r.status) { report += "NONDET " + std::to_string(i) + "\n"; err = stop = true; break; } char b[64]; snprintf(b, sizeof b, "%llu %016llx\n", (unsigned long long)i, (unsigned long long)r.hash); hashes += b; }
                if (r.status == 2) {
                    nviol++;
                    Result q = run_plan(w, p);
                    if (q.status != 2 || strcmp(q.cls, r.cls) || q.hash != r.hash) { report += "UNSTABLE " + std::to_string(i) + " " + r.cls + "\n"; if (nviol >= 5) stop = true; break; }
                    std::string base = out + "." + std::to_string(i);
                    write_file(base + ".full", plan_text(w, p, &r));
                    Shrinker s = {w, r.cls, now_s() + 25, 0};
                    Plan m = s.run(p); Result mr = run_plan(w, m), mr2 = run_plan(w, m);
                    if (mr.status == 2 && mr2.status == 2 && mr.hash == mr2.hash && !strcmp(mr.cls, r.cls)) write_file(base + ".min", plan_text(w, m, &mr));
                    else { m = p; write_file(base + ".min", plan_text(w, p, &r)); mr = r; }
                    report += "VIOL " + std::to_string(i) + " " + base + ".min " + std::to_string(p.steps.size()) + " " + std::to_string(m.steps.size()) + " " + std::to_string(m.slices.size()) + " " + mr.cls + ": " + mr.msg + "\n";
                    stop = true;
                }
            }
            if (stop) break;
        }
        std::string js; char b[128];
        snprintf(b, sizeof b, "STAT runs %llu\nSTAT ticks %llu\nSTAT steps %llu\n", (unsigned long long)runs, (unsigned long long)ticks, (unsigned long long)steps); js += b;
        snprintf(b, sizeof b, "STAT dups %llu\nSTAT digest %llu\nSTAT last %llu\nSTAT msecs %llu\n", (unsigned long long)dups, (unsigned long long)digest, (unsigned long long)last, (unsigned long long)((now_s() - t0) * 1000)); js += b;
        for (int k = 0; k < NCOUNTER; k++) { snprintf(b, sizeof b, "CNT %s %llu\n", counter_name[k], (unsigned long long)cnt[k]); js += b; }
        js += report;
        write_file(out + ".stat", js);
        if (!hashes.empty()) write_file(out + ".hashes", hashes);
        write_set(out + ".scheds", scheds); write_set(out + ".dist", dist);
        merge_bits(out + ".states", sh->states, sizeof sh->states); merge_bits(out + ".pcs", sh->pcs, sizeof sh->pcs);
        return err ? 3 : nviol ? 1 : 0;
    }
    if (cmd == "replay") {
        Plan p; u64 hash; std::string cls;
        if (pos.empty() || !plan_parse(pos[0].c_str(), p, hash, cls)) { fprintf(stderr, "cannot read plan\n"); return 3; }
        w->warmup(g_check);
        Result r = run_plan(w, p);
        printf("status %d class %s hash %016llx step %d\n%s\n", r.status, r.cls, (unsigned long long)r.hash, r.at_step, r.msg);
        if (r.status == 2 && r.cls == cls && (hash == 0 || r.hash == hash)) { printf("REPRODUCED\n"); return 1; }
        return r.status == 1 ? 0 : r.status == 2 ? 4 : 3;
    }
    if (cmd == "one") {   // run one generated plan, print it
        u64 i = strtoull(o["idx"].c_str(), 0, 10);
        w->warmup(g_check);
        Plan p = make_plan(w, seed, i, thorough);
        Result r = run_plan(w, p);
        printf("%sstatus %d %s %s ticks %llu steps %u hash %016llx\n", plan_text(w, p, &r).c_str(), r.status, r.cls, r.msg, (unsigned long long)r.ticks, r.steps, (unsigned long long)r.hash);
        return 0;
    }
    fprintf(stderr, "usage: batch|replay|one\n");
    return 3;
}
void set_step(int i) { g_cur_step = i; }
}
int main(int argc, char **argv) {
    int pe = personality(0xffffffff);      // no address-space randomisation, where the sandbox allows it
    if (pe != -1 && !(pe & ADDR_NO_RANDOMIZE) && personality((unsigned long)pe | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    return sim::engine_main(argc, argv); }
