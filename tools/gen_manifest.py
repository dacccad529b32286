#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and checks that it is in step with properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": "deterministic simulation: seeded interleavings of arena clients, client death, exhaustion; byte-level shadow of the arena",
"C02": "deterministic simulation: malformed and refused calls injected; shadow accounting; twin run without the refused calls; forked probes",
"C03": "deterministic simulation: merges placed anywhere in seeded histories; forked probes allocate every contiguous run of a shadow arena",
"C04": "deterministic simulation: the whole port under preemption with a client that fragments and exhausts the arena; shadow arena oracle",
"C05": "deterministic simulation: heap behind the allocator seam (placement, reuse, dirty contents); canaries, sized-release ledger, dirty twin runs, ASan build",
"C06": "deterministic simulation: tracked elements over dirty, instantly reused storage; live-object ledger",
"C07": "deterministic simulation with allocation-failure injection at a seeded allocation of a seeded operation",
"C08": "deterministic simulation: seeded preemption at every basic block and memory access, task kills mid-operation; compared with solo runs",
"C09": "deterministic simulation: readers interleaved at every basic block and memory access; compared with a solo reader",
"C22": "deterministic simulation: long seeded churn histories under several placements; live-byte bound after every operation",
"C23": "deterministic simulation: static-arena containers sharing the arena with a fragmenting, merging client; model, heap tripwire, arena conservation",
"C24": "deterministic simulation: seeded histories under storage reuse and poisoning; every outstanding handle re-read after every operation",
}
T.update({
"C25": "deterministic simulation: seeded histories of tasks whose arrays are made over storage with left-over contents, interleaved; model after every step",
"C26": "deterministic simulation: nodes placed, reused and dirtied by the simulated heap, seeded histories of interleaved tasks; model ring after every step",
"C27": "deterministic simulation: ranges of containers reached by seeded histories over the simulated heap, callbacks preempted; model of the range",
"C30": "deterministic simulation: seeded histories of attaching, rotating, copying and clearing over the simulated heap (placement, reuse, dirty storage), interleaved tasks; model tree with node identities after every step",
"C31": "deterministic simulation: seeded histories of bursts at sizes up to 80000 over the simulated heap (placement, reuse, dirty storage), under a simulated clock of executed steps; every burst held against the order of its cost",
"C28": "deterministic simulation: values and the pointers a simulated heap hands out under every placement, in interleaved tasks; compared with their rank",
})
MODEL = "deterministic simulation: seeded operation histories of interleaved tasks over a perturbed simulated heap; refinement against a reference model after every operation"
NOTE = "Sampled, not exhaustive: holds on every seeded run explored. Trusts g++/clang++ and their coverage callbacks (one tick per basic block), the reference models and the simulated heap."
XN = {"C04": " The static-memory port, allocator and containers are real; element type and ballast client are stubs.", "C08": " One simulated processor: no torn machine words.", "C09": " One simulated processor: no torn machine words.",
 "C05": " The fresh-contents and wild-access parts compare twin runs and use AddressSanitizer and canaries.", "C31": " A call is allowed 1000 steps of its order, at least four times the dearest seen; only growth beyond that is reported.", "C22": " The bound is 12x the peak element footprint since the object was last empty plus 24 blocks plus 4 KiB."}
for i in ("C25", "C28"): XN[i] = " Mostly a function of its inputs: the simulator contributes storage contents, addresses and interleaving, the rest is seeded input generation."
NA = {
"C29": "A property of building and linking, not of an execution: there is nothing to simulate.",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd="python3 check.py check " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py check " + i, evidence_file="evidence/%s.json" % i,
        technique=T.get(i, MODEL), level="exploration", level_note=NOTE + XN.get(i, "")))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="No hooks in /repo: the allocator template parameter, libc malloc/free, the element type, the comparator and compiler coverage callbacks are the seams. Replay: python3 check.py replay <plan>. Repaired defects: KNOWN_FINDINGS."),
    open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
assert sorted([c["property"] for c in checks] + list(NA)) == sorted(p["id"] for p in props)
