#!/usr/bin/env python3
"""Development tool (no check uses it): make and confirm a planted bug.
plant.py DEF.py [--check] [--notest]
DEF.py defines: id, prop, needs, breaks, edits=[(path, old, new)], demo (C++ text), optionally extra flags.
Works in the scratch copy /tmp/wt of /repo (made on first use), writes /verif/seeded/<id>."""
import os, sys, subprocess, json, shutil, re
W = os.environ.get("PLANT_WT", "/tmp/wt")
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def ensure():
    if not os.path.isdir(W):
        sh("git clone -q /repo %s" % W)
        for f in ("build.sh", "test.sh", "jstd_hook.cmake", "collect.py", "results.py"):
            t = open("/opt/vp/" + f).read().replace("/repo/_build", W + "/_build").replace("cd /repo ", "cd %s " % W).replace("/opt/vp/build.sh", W + "/.git/vp/build.sh")
            os.makedirs(W + "/.git/vp", exist_ok=True); open(W + "/.git/vp/" + f, "w").write(t)
    sh("cd %s && git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD" % W)
DEMO = """#!/bin/bash
# Builds and runs the demonstration beside this file against the headers in ./src.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%s %s -Isrc "$D/demo.cpp" -o "$T/demo" || exit 2
timeout 120 "$T/demo"
"""
def main():
    d = {}; exec(open(sys.argv[1]).read(), d)
    ensure()
    out = V + "/seeded/" + d["id"]; os.makedirs(out, exist_ok=True)
    for path, old, new in d["edits"]:
        p = W + "/" + path; s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1: print("EDIT MATCHES", s.count(old), repr(old)); return 1
        pre = s[:s.index(old)].count("\n") + 1
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run("git diff", shell=True, capture_output=True, cwd=W).stdout
    open(out + "/patch.diff", "wb").write(diff)
    # blame of the removed lines
    for path in {e[0] for e in d["edits"]}:
        z = subprocess.run(["git", "diff", "-U0", path], capture_output=True, cwd=W).stdout.decode("utf-8", "replace")
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", z, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0: continue
            b = sh("git blame -s -L %d,%d HEAD -- %s" % (a, a + n - 1, path), cwd="/repo").stdout
            bad = [l for l in b.splitlines() if not l.startswith(("^42537c7", "42537c7"))]
            if bad: print("NOT ORIGINAL:", *bad, sep="\n  ")
    open(out + "/demo.cpp", "w").write(d["demo"].lstrip())
    open(out + "/demo.sh", "w").write(DEMO % (d.get("cxx", "g++"), d.get("flags", "-std=c++17 -march=x86-64-v3 -O2 -DNDEBUG -w")))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % out, cwd="/repo"); b = sh("bash %s/demo.sh" % out, cwd=W)
    print("demo: unchanged", a.returncode, (a.stdout + a.stderr)[-300:].strip(), "| patched", b.returncode, (b.stdout + b.stderr)[-300:].strip())
    if a.returncode != 0 or b.returncode in (0, 2): print("DEMO BAD"); 
    if "--check" in sys.argv:
        r = sh("python3 tools/check.py %s" % d["prop"], cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1", VERIF_TIER="quick"))
        print("check %s: exit %d" % (d["prop"], r.returncode), *(r.stdout + r.stderr).strip().splitlines()[-4:], sep="\n   ")
    if "--notest" not in sys.argv:
        r = sh("bash %s/.git/vp/test.sh /tmp/wt.json" % W)
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = json.load(open("/tmp/wt.json"))
        miss = base - set(o["passed"]); print("tests: %d passed, missing stable: %s" % (len(o["passed"]), sorted(miss)[:5]))
        if not o["passed"]: print(r.stdout[-1500:], r.stderr[-500:])
    sh("git checkout -q -f .", cwd=W)
main()
