#!/usr/bin/env python3
"""Planted bugs: build /verif/seeded/<id>/ from tools/seeds_*.py, confirm each, run the checks against each.

  seedlib.py make [id..]     write patch.diff, demo.sh, demo.cpp, meta.json
  seedlib.py confirm [id..]  in /repo: demo passes; apply; builds; stable tests pass; demo fails; undo
  seedlib.py check [id..]    in a scratch worktree: run the property's check against each; print caught/missed
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); OUT = V + "/seeded"
DEMO = '''#!/bin/bash
# cwd: the repository. Compiles demo.cpp against its headers in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w %s-I"$repo" -o "$t/demo" "$here/demo.cpp" || exit 2
cd "$t" || exit 3
ulimit -c 0
timeout -k 5 %d ./demo
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <deque>
#include <set>
#include <map>
#include <string>
#include <algorithm>
#include <dstruct.hpp>
#define REQUIRE(x) do { if (!(x)) { printf("FAILED line %d: %s\\n", __LINE__, #x); fflush(stdout); _Exit(1); } } while (0)
'''
SEEDS = {}
def seed(id, prop, file, edits, demo, needs, breaks, flags="", timeout=60):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, files=file if isinstance(file, dict) else {file: edits}, demo=demo, needs=needs, breaks=breaks, flags=flags, timeout=timeout)

def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def scratch():
    w = "/tmp/seedwt"
    if not os.path.isdir(w): sh("git", "-C", "/repo", "worktree", "prune"); r = sh("git", "-C", "/repo", "worktree", "add", "--detach", w, "HEAD"); assert r.returncode == 0, r.stdout
    sh("git", "-C", w, "checkout", "-q", "-f", "--detach", sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip())
    return w

def make(ids):
    w = scratch()
    for i in ids:
        s = SEEDS[i]; d = OUT + "/" + i; os.makedirs(d, exist_ok=True)
        for f, edits in s["files"].items():
            t = open(w + "/" + f, encoding="utf-8", newline="").read(); crlf = "\r\n" in t
            for old, new in edits:
                if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if t.count(old) != 1: print(i, f, "matches", t.count(old), repr(old[:60])); sys.exit(1)
                t = t.replace(old, new)
            open(w + "/" + f, "w", encoding="utf-8", newline="").write(t)
        p = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(p)
        sh("git", "-C", w, "checkout", "-q", "--", ".")
        open(d + "/demo.cpp", "w").write(PRE + s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % (s["flags"] + " " if s["flags"] else "", s["timeout"])); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)

def confirm(ids):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ok = True
    for i in ids:
        d = OUT + "/" + i; res = []
        # a planted bug has to change lines of the original repository
        base = sh("git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD").stdout.strip()
        r = sh("bash", d + "/demo.sh", cwd="/repo"); res.append(("demo-clean", r.returncode == 0, r.stdout[-300:]))
        r = sh("git", "-C", "/repo", "apply", d + "/patch.diff"); res.append(("applies", r.returncode == 0, r.stdout))
        if r.returncode == 0:
            try:
                r = sh("bash", "/opt/vp/test.sh", "/tmp/seed-out.json"); out = json.load(open("/tmp/seed-out.json")) if os.path.exists("/tmp/seed-out.json") else {}
                passed = set(re.findall(r"PASS (\S+)", r.stdout))
                res.append(("tests", stable <= passed, str(sorted(stable - passed)) + (r.stdout[-600:] if not passed else "")))
                r = sh("bash", d + "/demo.sh", cwd="/repo"); res.append(("demo-fails", r.returncode not in (0, 2, 3), "rc %d %s" % (r.returncode, r.stdout[-200:])))
            finally: sh("git", "-C", "/repo", "checkout", "--", ".")
        bad = [x for x in res if not x[1]]
        print(i, "OK  " + res[-1][2].strip().replace("\n", " | ") if not bad else "BAD %s" % bad, flush=True)
        ok &= not bad
    sh("bash", "/opt/vp/test.sh", "/tmp/seed-out.json")
    return ok

def check(ids, props=None):
    w = scratch()
    for i in ids:
        r = sh("git", "-C", w, "apply", OUT + "/" + i + "/patch.diff"); assert r.returncode == 0, r.stdout
        for p in (props or [json.load(open(OUT + "/" + i + "/meta.json"))["property"]]):
            r = sh("python3", "check.py", "check", p, cwd=V, env=dict(os.environ, VERIF_REPO=w))
            x = re.search(r"violation class: (.*)\n(.*)", r.stdout)
            hit = r.returncode == 1 and re.search(r"^VIOLATION property=%s replay=" % p, r.stdout, re.M)
            print(i, p, "CAUGHT" if hit else "missed rc=%d" % r.returncode, (x.group(1) + " " + x.group(2)[:160]) if x else ("" if r.returncode == 0 else r.stdout[-400:]), flush=True)
        sh("git", "-C", w, "checkout", "-q", "--", ".")

if __name__ == "__main__":
    sys.modules["seedlib"] = sys.modules["__main__"]
    sys.path.insert(0, HERE)
    for f in sorted(glob.glob(HERE + "/seeds_*.py")): __import__(os.path.basename(f)[:-3])
    cmd, ids = sys.argv[1], sys.argv[2:]
    props = None
    if "--props" in ids: k = ids.index("--props"); props = ids[k + 1].split(","); ids = ids[:k]
    ids = ids or sorted(SEEDS)
    if cmd == "make": make(ids)
    elif cmd == "confirm": sys.exit(0 if confirm(ids) else 1)
    elif cmd == "check": check(ids, props)
