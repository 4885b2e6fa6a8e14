#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [--tier quick|thorough] [--seed N]
                                    check.py --replay FILE
Builds the harnesses of the property from /repo's current tree, runs their numbered cases on all cores, and turns
what the monitors reported into a verdict. Exit 0: held. Exit 1: VIOLATION line. Anything else: the check failed."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import jobs as J

NCPU = max(1, min(8, os.cpu_count() or 8))
PLAIN = ["g++", "-std=c++17", "-march=x86-64-v3", "-mtune=generic", "-O3", "-DNDEBUG", "-w"]
ASAN = ["clang++", "-std=c++17", "-march=x86-64-v3", "-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-DVF_SAN", "-w",
        "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
GASAN = ["g++", "-std=c++17", "-march=x86-64-v3", "-O1", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG", "-DVF_SAN", "-w",
        "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TSAN = ["clang++", "-std=c++17", "-march=x86-64-v3", "-O1", "-g1", "-DNDEBUG", "-DVF_SAN", "-w", "-fsanitize=thread"]
CLANG = ["clang++"] + PLAIN[1:]
CXX = {"": PLAIN, "clang": CLANG, "asan": ASAN, "gasan": GASAN, "tsan": TSAN}
ENV = dict(os.environ,
    ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=97:detect_stack_use_after_return=1:strict_string_checks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_segv=1",
    UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=98",
    TSAN_OPTIONS="halt_on_error=1:exitcode=96:report_signal_unsafe=0:second_deadlock_stack=1",
    LSAN_OPTIONS="exitcode=95")
ENV.pop("VF_DEBUG", None)

try: CPU = set(re.search(r"^flags\s*: (.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
except (OSError, AttributeError): CPU = set()

class Broken(Exception): pass

def moveonly(j): return (j.src, j.defs.get("CFG")) in (("args.cpp", 3), ("hist.cpp", 18))

def compile_cmd(j, out):
    cmd = list(CXX[j.san])
    cmd += ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(ROOT, "harness")]
    cmd += ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in sorted(j.defs.items())]
    cmd += j.flags + [os.path.join(ROOT, "harness", j.src), "-o", out] + j.libs
    return cmd

def errors(text):
    lines = [l[:600] for l in text.splitlines() if "error" in l or "required from here" in l]
    return "\n".join(lines[:20])[:3000] + "\n" + text[:3000]

def build(j, bindir):
    out = os.path.join(bindir, j.name)
    p = subprocess.run(compile_cmd(j, out), capture_output=True, text=True)
    if p.returncode:
        raise Broken("compiling %s failed:\n%s" % (j.name, errors(p.stderr or p.stdout)))
    return out

def run_cmd(j, binary, seed, lo, hi, progress):
    cmd = [binary, "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--progress", progress]
    for k, v in j.sets.items(): cmd += ["--set", "%s=%s" % (k, v)]
    return cmd

def classify(j, rc, out, err, progress):
    """-> None (held) or (key, text)"""
    m = re.search(r"^VIOL (.*)$", out, re.M)
    if m:
        line = m.group(1)
        key = line.split("|")[0].strip()
        return key, out[m.start():][:6000]
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([A-Za-z\-]+(?: on unknown address|-[a-z]+)?)", err) 
    if m:
        kind = m.group(2).replace(" ", "-")
        if m.group(1) == "LeakSanitizer": kind = "leak"
        return "asan-" + kind + frame(err), err[:8000]
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z ]+)", err)
    if m: return "tsan-" + m.group(1).strip().replace(" ", "-") + frame(err), err[:8000]
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", err)
    if m: return "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))[:80] + "@" + os.path.basename(m.group(1)), err[:8000]
    m = re.search(r"(AddressSanitizer|ThreadSanitizer):DEADLYSIGNAL|ERROR: ThreadSanitizer: (\S+)", err)
    if m: return "san-signal" + frame(err), err[:8000]
    if rc == 0 and re.search(r"^DONE$", out, re.M): return None
    if rc < 0 or rc in (139, 134, 136, 132): return "signal%d" % rc, (out[-2000:] + err[-3000:])
    raise Broken("%s ended with %d\n%s\n%s" % (j.name, rc, out[-1500:], err[-3000:]))

def frame(err):
    for m in re.finditer(r"^\s+#\d+ \S+ in (.+?) (\S+):(\d+)", err, re.M):
        if "/src/jstd/" in m.group(2): return "@" + os.path.basename(m.group(2))
    return ""

def execute(j, binary, seed, lo, hi, tmp, wall):
    """One shard. A hang or a timeout is run again before it is believed."""
    for attempt in (0, 1):
        fd, progress = tempfile.mkstemp(dir=tmp); os.close(fd)
        cmd = run_cmd(j, binary, seed, lo, hi, progress)
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=wall, env=ENV, cwd=tmp, stdin=subprocess.DEVNULL)
            out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
            v = classify(j, p.returncode, out, err, progress)
        except subprocess.TimeoutExpired:
            if attempt: raise Broken("%s: the cases %d..%d did not end within %d s (twice)" % (j.name, lo, hi, wall))
            continue
        finally:
            try: case = int.from_bytes(open(progress, "rb").read(8), "little")
            except OSError: case = lo
            os.unlink(progress)
        if v and v[0] == "hang" and attempt == 0: continue
        return v, case, out
    raise Broken("unreachable")

def load_known():
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m: known.append(m.groups())
    return known

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    spec = J.CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    os.chmod(tmp, 0o755)
    try:
        return check(prop, spec, tier, seed, tmp, t0)
    except Broken as e:
        print("CHECK FAILED (no verdict): %s" % e); return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(prop, spec, tier, seed, tmp, t0):
    bindir = os.path.join(tmp, "bin"); os.mkdir(bindir)
    jobs = [j for j in spec["jobs"] if not set(j.cpu) - CPU]
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), names
    lock = threading.Lock()
    res = {"viol": [], "stats": {}, "samples": [], "digests": set(), "per_job": {j.name: {"cases": 0, "events": 0, "note": "not run: the processor lacks " + " ".join(sorted(set(j.cpu) - CPU))} for j in spec["jobs"] if set(j.cpu) - CPU}, "known": []}
    stop = threading.Event()
    broken = []

    def shard(j, binary, lo, hi):
        if stop.is_set(): return
        try: v, case, out = execute(j, binary, seed, lo, hi, tmp, 240 if tier == "quick" else 1500)
        except Broken as e:
            broken.append(str(e)); stop.set(); return
        with lock:
            if v: res["viol"].append((j, v, case, lo, hi)); stop.set()
            for m in re.finditer(r"^KNOWN (\S+) \| (.*)$", out, re.M): res["known"].append((m.group(1) if ":" in m.group(1) else j.name + ":" + m.group(1), m.group(2)))
            pj = res["per_job"].setdefault(j.name, {"cases": 0, "events": 0})
            for m in re.finditer(r"^STAT (\S+) (\d+)$", out, re.M):
                k, n = m.group(1), int(m.group(2))
                if k.startswith("max_"): res["stats"][k] = max(res["stats"].get(k, 0), n)
                else: res["stats"][k] = res["stats"].get(k, 0) + n
                if k in ("cases", "events"): pj[k] += n
            for m in re.finditer(r"^SAMPLE (.*)$", out, re.M):
                if len(res["samples"]) < 400: res["samples"].append(m.group(1))
            for m in re.finditer(r"^DIG (.*)$", out, re.M): res["digests"].update(j.name + h for h in m.group(1).split())

    with cf.ThreadPoolExecutor(NCPU) as ex:
        builds = {ex.submit(build, j, bindir): j for j in sorted(jobs, key=lambda j: j.san == "")}
        runs = []
        for f in cf.as_completed(builds):
            j = builds[f]
            try: binary = f.result()
            except Broken as e:
                # a build with other options than the repository's own may cease to compile: that is no verdict on the property
                if j.optional: res["per_job"][j.name] = {"cases": 0, "events": 0, "note": "does not compile: " + str(e)[:300]}; continue
                # the mapped type cannot be copied and the library now asks for a copy: values are no longer moved
                if moveonly(j) and re.search(r"deleted function[^\n]*MoveOnly|MoveOnly[^\n]*deleted|deleted constructor[^\n]*MoveOnly", str(e)):
                    res["viol"].append((j, ("move-only-type-is-copied", str(e)[:6000]), 0, 0, 1)); stop.set(); continue
                broken.append(str(e)); continue    # the others may still find a violation
            n = j.quick if tier == "quick" else j.thorough
            parts = min(n, j.shards if tier == "quick" else max(j.shards, 8))
            cut = [n * i // parts for i in range(parts + 1)]
            runs += [ex.submit(shard, j, binary, cut[i], cut[i + 1]) for i in range(parts)]
        for f in runs: f.result()
    if broken and not res["viol"]: raise Broken(broken[0])

    known = [k for k in load_known() if k[0] == prop]
    seen_known = dict(res["known"])
    listed = {k[1]: k[2] for k in known}
    status = 0
    for key, what in sorted(seen_known.items()):
        if key in listed: print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, what))
        else:
            status = 1; res["viol"].append((jobs[0], (key, what), 0, 0, 1))
    real = []
    for j, (key, text), case, lo, hi in res["viol"]:
        full = key if ":" in key else j.name + ":" + key
        if full in listed: print("KNOWN-FINDING: property=%s %s" % (prop, full)); continue
        real.append((j, full, text, case, lo, hi))
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for j, full, text, case, lo, hi in real[:3]:
        status = 1
        path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", full)[:80], case))
        json.dump({"property": prop, "job": j.name, "key": full, "seed": seed, "case": case, "from": lo, "to": hi,
                   "build": compile_cmd(j, "BIN"), "run": run_cmd(j, "BIN", seed, case, case + 1, "PROGRESS"), "report": text}, open(path, "w"), indent=1)
        print(text[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    st = res["stats"]
    if status == 0:
        for k, n in spec.get("need", {}).items():
            if st.get(k, 0) < n: raise Broken("the monitors observed only %d of %s, expected at least %d" % (st.get(k, 0), k, n))
    picks = res["samples"]; step = max(1, len(picks) // 6)
    cov = {"evaluations": st.get("cases", 0), "distinct_nontrivial": len(res["digests"]), "rule": spec["rule"],
           "samples": picks[::step][:8] or ["none"], "observed": {k: v for k, v in sorted(st.items()) if k != "cases"},
           "per_binary": res["per_job"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(real)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)
    if status == 0:
        print("%s held: %d cases, %d distinct non-trivial, %d events, %.0f s" % (prop, st.get("cases", 0), len(res["digests"]), st.get("events", 0), time.time() - t0))
    return status

def replay(path):
    r = json.load(open(path))
    j = [j for j in J.CHECKS[r["property"]]["jobs"] if j.name == r["job"]][0]
    tmp = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        try: b = build(j, tmp)
        except Broken as e: print(str(e)[:3000]); return 1 if moveonly(j) else 2
        p = subprocess.run(run_cmd(j, b, r["seed"], r["case"], r["case"] + 1, tmp + "/progress"), env=ENV, cwd=tmp)
        return p.returncode
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
