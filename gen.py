#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_defs.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props_defs import CLAIMED, NA, NOTES
from props_table import PROPS

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in CLAIMED + NA:
        d = {k: p[k] for k in ("id", "title", "statement")}
        assert len(d["title"]) <= 80, p["id"]
        d["quantifier"] = {"over": p["over"].split(), "text": p["quant"]}
        d["why_tests_cant"] = p["why"]
        a = {"files": p["files"].split(),
             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        d["anchors"] = a
        f.write(json.dumps(d) + "\n")

checks = []
for p in CLAIMED:
    i = p["id"]
    assert i in PROPS["checks"], i
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: " + p["tech"],
        "level": "exploration",
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none",
              "enable": "No hooks were needed: the checks interpose pthread, libc and the allocator at link time, take the compiler's own access instrumentation, and use the stream and callback parameters of the public interface.",
              "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in NA],
    "notes": NOTES,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
