#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py check <ID>      build the simulator from /repo's working tree, search, report (VERIF_SEED, VERIF_TIER)
  check.py replay <plan>   rebuild and run one replay file; exit 1 when it reproduces
  check.py setup           verify the toolchain
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
OUT = os.path.join(HERE, "out")
BUILD = os.path.join(HERE, "build")
NPROC = max(1, min(8, os.cpu_count() or 1))

PLAIN = ["k_vec", "k_deq1", "k_deq2", "k_queue", "k_list", "k_stack", "k_heap", "k_bst", "k_avl", "k_map", "k_misc", "k_nest1", "k_nest2", "k_links"]
TASKS = PLAIN + ["k_small"]
GCC = ("g++", ["-std=c++11", "-O1", "-w", "-fsanitize-coverage=trace-pc"], [], ["-static", "-no-pie"])
GCC2 = ("g++", ["-std=c++11", "-O2", "-w", "-fsanitize-coverage=trace-pc"], [], ["-static", "-no-pie"])
FINE = ("clang++", ["-std=c++11", "-O0", "-w", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores"], [], ["-static", "-no-pie"])
ASAN = ("g++", ["-std=c++11", "-O1", "-g", "-w", "-fsanitize-coverage=trace-pc", "-fsanitize=address"], ["-fsanitize=address"], ["-no-pie"])
BUILDS = {"gcc-O1": GCC, "gcc-O2": GCC2, "clang-O0-accesses": FINE, "gcc-asan": ASAN}

# id: (world, kind units, builds for quick [(build, runs)], extra builds for thorough)
def cont(units, n, build="gcc-O1", more=(), tbuilds=("gcc-O1", "clang-O0-accesses", "gcc-O2")):
    return dict(world=["heap", "w_cont"], units=units, quick=[(build, n)] + list(more), thorough=tbuilds)
CHECKS = {
    "C01": dict(world=["w_sma"], units=["k_sma"], quick=[("gcc-O1", 40000)], thorough=("gcc-O1", "clang-O0-accesses", "gcc-O2")),
    "C02": dict(world=["w_sma"], units=["k_sma"], quick=[("gcc-O1", 16000)], thorough=("gcc-O1", "clang-O0-accesses", "gcc-O2")),
    "C03": dict(world=["w_sma"], units=["k_sma"], quick=[("gcc-O1", 30000)], thorough=("gcc-O1", "clang-O0-accesses", "gcc-O2")),
    "C04": cont(["k_port"], 6000),
    "C05": cont(TASKS, 60000, more=[("gcc-asan", 7000)], tbuilds=("gcc-O1", "gcc-asan", "gcc-O2")),
    "C06": cont(PLAIN, 100000), "C07": cont(PLAIN, 120000), "C08": cont(TASKS, 36000, "clang-O0-accesses"), "C09": cont(TASKS, 60000, "clang-O0-accesses"),
    "C10": cont(["k_vec", "k_nest1"], 110000), "C11": cont(["k_deq1", "k_deq2", "k_queue", "k_nest1"], 110000), "C12": cont(["k_list", "k_nest1"], 140000),
    "C13": cont(["k_stack", "k_nest1"], 140000), "C14": cont(["k_heap", "k_nest2"], 120000), "C15": cont(["k_bst", "k_nest2"], 50000), "C16": cont(["k_avl", "k_nest2"], 50000),
    "C17": cont(["k_map", "k_nest2"], 50000), "C18": cont(["k_misc"], 30000), "C19": cont(["k_misc"], 100000), "C20": cont(TASKS, 90000),
    "C21": cont(PLAIN, 90000), "C22": cont(PLAIN, 1000), "C23": cont(["k_stat1", "k_stat2"], 110000),
    "C24": cont(["k_list", "k_bst", "k_avl", "k_map", "k_nest1", "k_nest2"], 80000),
    "C25": cont(["k_small"], 60000), "C26": cont(["k_small"], 70000), "C27": cont(["k_range"], 24000), "C28": cont(["k_small"], 70000), "C30": cont(["k_links"], 60000),
    "C31": dict(world=["heap", "w_cost"], units=["k_cost"], quick=[("gcc-O1", 300)], thorough=("gcc-O1", "gcc-O2")),
}
QUICK_CAP, THOROUGH_CAP = 75.0, 900.0
REAL = "the whole library as included by dstruct.hpp (containers, iterators, allocator adapters), compiled from /repo's working tree"
STUBS = {
    "w_cont": "stubs: heap behind the allocator seam (simulated addresses, contents, refusals), libc malloc/free, element type (tracked), comparator",
    "w_sma": "real: StaticMemAllocator; stubs: the clients",
    "w_cost": "stubs: heap behind the allocator seam, libc malloc/free, element type; the clock counts executed steps of library code",
    "k_port": "real: static-memory port, StaticMemAllocator and containers; stubs: element type, a ballast client",
}

class Err(Exception):
    pass

class NoCompile(Exception):
    """a documented operation of the library does not compile (though the library's headers do)"""
    def __init__(self, unit, cmd, log):
        self.unit, self.cmd, self.log = unit, cmd, log

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_key():
    h = hashlib.sha256()
    for root in (REPO, SIM):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "build", ".xmake", "tests", "examples", "docs"))
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".cpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def build(cid, bname):
    c = CHECKS[cid]; cxx, flags, efl, link = BUILDS[bname]
    key = tree_key()
    d = os.path.join(BUILD, key, bname); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, cid)
    if os.path.exists(exe):
        return exe
    jobs = []
    for u in c["units"]:
        jobs.append((u, [cxx] + flags))
    for u in ["core"] + c["world"]:
        jobs.append((u, ["g++", "-std=c++11", "-O2", "-w"] + efl))
    objs, todo, run = [], [], []
    for u, cmd in jobs:
        o = os.path.join(d, u + ".o"); objs.append(o)
        if not os.path.exists(o):
            todo.append((u, cmd + ["-I" + SIM, "-I" + REPO, "-c", os.path.join(SIM, u + ".cpp"), "-o", o + ".%d" % os.getpid()], o))
    while todo or run:
        while todo and len(run) < NPROC:
            u, cmd, o = todo.pop(0)
            run.append((u, o, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        u, o, p = run.pop(0)
        _, err = p.communicate()
        if p.returncode:
            for _, _, q in run: q.kill()
            if u.startswith("k_"):
                probe = '#include <%s>\nint main() { return 0; }\n' % ("dstruct-static.hpp" if u.startswith("k_stat") else "dstruct.hpp")
                ok = subprocess.run([cmd[0], "-std=c++11", "-w", "-I" + REPO, "-fsyntax-only", "-x", "c++", "-"], input=probe, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if ok.returncode == 0 and not re.search(r"No space|Cannot allocate|Killed|internal compiler error", err):
                    raise NoCompile(u, cmd, "\n".join(l for l in err.splitlines() if "error:" in l)[:4000] or err[-3000:])
            raise Err("compiling %s failed:\n%s" % (u, err[-3000:]))
        os.replace(o + ".%d" % os.getpid(), o)
    r = sh([("g++" if cxx == "g++" else "clang++")] + efl + link + ["-Wl,-z,muldefs"] + objs + ["-o", exe + ".tmp%d" % os.getpid()])   # several units include the headers; whether that links is not what a check decides
    if r.returncode:
        raise Err("linking failed:\n" + r.stdout[-3000:])
    os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe

def batch(exe, cid, tier, seed, frm, to, stride, secs, dup, out):
    return subprocess.Popen([exe, "batch", "--check", cid, "--tier", tier, "--seed", str(seed), "--from", str(frm), "--to", str(to), "--stride", str(stride), "--secs", str(secs), "--dup", str(dup), "--out", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)

def parse_stat(path):
    st, cnt, rep = {}, {}, []
    for l in open(path):
        w = l.split(None, 2)
        if w[0] == "STAT": st[w[1]] = int(w[2])
        elif w[0] == "CNT": cnt[w[1]] = int(w[2])
        else: rep.append(l.rstrip("\n"))
    return st, cnt, rep

def search(exe, cid, tier, seed, nruns, cap, work, tag):
    """all workers; stops early once one of them has a violation"""
    outs = [os.path.join(work, "%s.w%d" % (tag, i)) for i in range(NPROC)]
    dup = max(1, nruns // 400) if nruns else 101
    procs = [batch(exe, cid, tier, seed, i, nruns, NPROC, cap, dup, outs[i]) for i in range(NPROC)]
    t0 = time.time(); viol_at = None
    while True:
        rcs = [p.poll() for p in procs]
        if all(x is not None for x in rcs): break
        if viol_at is None and any(x == 1 for x in rcs): viol_at = time.time()
        if viol_at and time.time() - viol_at > 6:
            for p in procs:
                if p.poll() is None: p.kill()
        if time.time() - t0 > cap + 120:
            for p in procs: p.kill()
            raise Err("a worker did not finish")
        time.sleep(0.02)
    return outs, [p.returncode for p in procs], dup

def replay(exe, path):
    return sh([exe, "replay", path])

def popcount(paths):
    acc = None
    for p in paths:
        if os.path.exists(p):
            v = int.from_bytes(open(p, "rb").read(), "little"); acc = v if acc is None else acc | v
    return bin(acc or 0).count("1")

def union_size(paths):
    s = set()
    for p in paths:
        if os.path.exists(p):
            b = open(p, "rb").read(); s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    return len(s)

def known_findings(cid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == cid: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def check(cid):
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); c = CHECKS[cid]
    work = os.path.join(OUT, cid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if tier == "quick":
        plan = [(b, n, QUICK_CAP) for b, n in c["quick"]]
    else:
        plan = [(b, 0, THOROUGH_CAP / len(c["thorough"])) for b in c["thorough"]]
    tot = dict(runs=0, ticks=0, steps=0, dups=0); cnt = {}; files = {"states": [], "pcs": [], "dist": [], "scheds": []}; per = {}; viol = []; cross = 0; samples = []; bad = []
    bt = 0.0
    for k, (b, n, cap) in enumerate(plan):
        tb = time.time(); exe = build(cid, b); bt += time.time() - tb
        s = seed + 1000003 * k
        outs, rcs, dup = search(exe, cid, tier, s, n or 1 << 40, cap, work, b)
        dup = max(1, n // 400) if n else 101
        nr = 0; hashes = {}
        for o, rc in zip(outs, rcs):
            if not os.path.exists(o + ".stat"):
                if any(r == 1 for r in rcs): continue       # stopped because another worker had finished with a violation
                raise Err("a worker ended with status %s and no report" % rc)
            st, cn, rep = parse_stat(o + ".stat")
            nr += st["runs"]
            for x in tot: tot[x] += st.get(x, 0)
            for x, v in cn.items(): cnt[x] = cnt.get(x, 0) + v
            for f in files: files[f].append(o + "." + f)
            if os.path.exists(o + ".hashes"):
                for l in open(o + ".hashes"): i, h = l.split(); hashes[int(i)] = h
            for l in rep:
                if l.startswith("VIOL "): viol.append((exe, b, l))
                else: bad.append(l)
        per[b] = nr
        for o in outs[:2]:
            for e in (".sample0", ".sample1"):
                if os.path.exists(o + e) and len(samples) < 3: samples.append(open(o + e).read())
        if viol: break
        if bad: raise Err("the simulator itself failed: " + bad[0])
        # the same seeds again, in one fresh process and another order of work: every history must be identical
        if hashes:
            idx = sorted(hashes); idx = idx[: max(1, len(idx) // 2)]
            step = dup; hi = idx[-1] + 1
            o2 = os.path.join(work, b + ".again")
            p = batch(exe, cid, tier, s, 0, min(hi, step * 120), step, 60, step, o2); p.communicate()
            if os.path.exists(o2 + ".hashes"):
                for l in open(o2 + ".hashes"):
                    i, h = l.split()
                    if int(i) in hashes:
                        cross += 1
                        if hashes[int(i)] != h: raise Err("run %s is not deterministic: %s then %s" % (i, hashes[int(i)], h))
            elif p.returncode: raise Err("the determinism re-run failed")
    # every violation must reproduce from its file in a fresh process, twice
    reported = []; unrep = []; known = known_findings(cid); kf = []
    for exe, b, l in viol:
        m = re.match(r"VIOL (\d+) (\S+) (\d+) (\d+) (\d+) ([^:]+): (.*)$", l, re.S)
        i, path, n0, n1, nsl, cls, msg = m.groups()
        path = path if replay(exe, path).returncode == 1 and replay(exe, path).returncode == 1 else path[:-4] + ".full"
        if replay(exe, path).returncode != 1:
            unrep.append("violation at run %s (%s: %s) does not replay in a fresh process" % (i, cls, msg)); continue
        dst = os.path.join(OUT, "%s-%s-%s.plan" % (cid, b, i)); txt = open(path).read()
        open(dst, "w").write(txt.replace("\ncheck ", "\n# build %s\ncheck " % b, 1))
        hit = [k for k in known if k[0].search(cls + ": " + msg)]
        if hit: kf.append(hit[0][1]); continue
        reported.append((dst, cls, msg, n0, n1, nsl))
    if unrep and not reported and not kf: raise Err(unrep[0])
    wall = time.time() - t0
    dist = union_size(files["dist"]); search_s = max(0.001, wall - bt)
    faults = {k: v for k, v in cnt.items() if not k.startswith("probe_")}
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(reported),
        coverage=dict(
            evaluations=tot["runs"], distinct_nontrivial=dist,
            rule="one evaluation is one simulated run generated from (seed, run index); runs are counted once per distinct history hash (every address handed out, every observation, every schedule decision), and only if they performed at least two operations and at least one fault, perturbation or preemption was actually delivered",
            samples=samples or ["(none)"],
            runs_per_hour=int(tot["runs"] / search_s * 3600), seeds_per_run=1,
            simulated_time_ticks=tot["ticks"], simulated_time_unit="one tick = one basic block (clang build: or one memory access) of library code executed under the simulator",
            operations=tot["steps"], faults_delivered={k: v for k, v in faults.items() if v}, fault_kinds_never_delivered=sorted(k for k, v in faults.items() if not v),
            probes={k: v for k, v in cnt.items() if k.startswith("probe_")},
            distinct_schedules=union_size(files["scheds"]), distinct_states=popcount(files["states"]), distinct_states_measure="hashes of (container kind, observed contents or arena layout) set in a 4194304-bit map (a lower bound)",
            library_blocks_reached=popcount(files["pcs"]), runs_by_build=per,
            determinism=dict(runs_repeated_in_process=tot["dups"], runs_repeated_in_fresh_process=cross, differing=0),
            components_real=REAL, components_stubbed=STUBS["k_port"] if cid == "C04" else STUBS.get(c["world"][-1], ""), workers=NPROC, build_s=round(bt, 1)),
        assumptions=["one simulated processor: preemption happens between basic blocks (or memory accesses), not inside one", "the compiler's coverage callbacks do not change the meaning of the code", "sampled, not exhaustive"])
    json.dump(ev, open(os.path.join(HERE, "evidence", cid + ".json"), "w"), indent=1)
    for o in glob.glob(os.path.join(work, "*.dist")) + glob.glob(os.path.join(work, "*.scheds")) + glob.glob(os.path.join(work, "*.states")): os.remove(o)
    for f in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s" % (cid, f))
    for dst, cls, msg, n0, n1, nsl in reported:
        print("violation class: %s\n%s\nminimised from %s to %s steps and %s schedule slices; replay with: python3 %s replay %s" % (cls, msg, n0, n1, nsl, os.path.join(HERE, "check.py"), dst))
        print("VIOLATION property=%s replay=%s" % (cid, dst))
    print("%s %s: %d runs (%d distinct and non-trivial), %d ticks, %d operations, %.1f s" % (cid, tier, tot["runs"], dist, tot["ticks"], tot["steps"], wall))
    return 1 if reported else 0

def no_compile(cid, e, t0):
    dst = os.path.join(OUT, "%s-compile-%s.txt" % (cid, e.unit)); os.makedirs(OUT, exist_ok=True)
    open(dst, "w").write("nocompile %s\ncheck %s\ncommand %s\n%s\n" % (e.unit, cid, " ".join(e.cmd), e.log))
    ev = dict(property=cid, tier=os.environ.get("VERIF_TIER", "quick"), seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="exploration", wall_s=round(time.time() - t0, 2), violations=1,
        coverage=dict(evaluations=0, distinct_nontrivial=0, rule="no run: the operations of this property do not compile", samples=[e.log[:1000]]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", cid + ".json"), "w"), indent=1)
    print("violation class: does-not-compile\nthe headers compile, but the documented operations used in sim/%s.cpp do not:\n%s" % (e.unit, e.log[:1500]))
    print("VIOLATION property=%s replay=%s" % (cid, dst))
    return 1

def do_replay(path):
    txt = open(path).read(); cid = re.search(r"^check (\S+)", txt, re.M).group(1); m = re.search(r"^# build (\S+)", txt, re.M)
    try: exe = build(cid, m.group(1) if m else CHECKS[cid]["quick"][0][0])
    except NoCompile as e: return no_compile(cid, e, time.time())
    if txt.startswith("nocompile"): print("it compiles now"); return 0
    r = replay(exe, path); print(txt if len(txt) < 20000 else txt[:20000]); print(r.stdout.strip())
    if r.returncode == 1: print("VIOLATION property=%s replay=%s" % (cid, path))
    return r.returncode

def main():
    try:
        cmd = sys.argv[1] if len(sys.argv) > 1 else ""
        if cmd == "check" and len(sys.argv) > 2 and sys.argv[2] in CHECKS:
            t0 = time.time()
            try: return check(sys.argv[2])
            except NoCompile as e: return no_compile(sys.argv[2], e, t0)
        if cmd == "replay" and len(sys.argv) > 2: return do_replay(sys.argv[2])
        if cmd == "setup":
            for t in ("g++", "clang++"):
                if not shutil.which(t): raise Err(t + " is missing")
            os.makedirs(OUT, exist_ok=True); os.makedirs(BUILD, exist_ok=True); print("ok"); return 0
        print(__doc__); return 2
    except Err as e:
        print("ERROR: %s" % e); return 3

if __name__ == "__main__":
    sys.exit(main())
