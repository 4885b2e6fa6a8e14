#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
import jobs
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.CHECKS:
        c = jobs.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "technique": c.get("technique", "runtime monitoring: generated histories on the real code, every result compared online with an executable model; sanitizer builds of the same workload"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "Held on the executions the run counted (evidence file), nothing beyond them. Trusts the compilers, the sanitizers and the reference model in harness/.")})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m py_compile tools/check.py tools/jobs.py", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
