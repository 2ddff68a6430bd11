#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
def w(p, t):
    if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
lines = []
checks = []; na = []
for k in sorted(PROPS):
    p = PROPS[k]
    assert len(p["title"]) <= 80, (k, len(p["title"]))
    anc = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
           "observe_at": [p["observe"]], "hook_needed": None}
    if p["state"]: anc["state"] = [{"name": p["state"], "meaning": p["state"], "where": p["files"][0]}]
    lines.append(json.dumps({"id": k, "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": anc}))
    if not p["harness"]:
        na.append({"property": k, "reason": p["note"] or "check under construction"}); continue
    checks.append({"property": k, "quick_cmd": "python3 tools/check.py %s --tier quick" % k,
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % k,
                   "technique": p.get("technique") or "runtime monitoring: seeded hostile workloads on the real code under ASan+UBSan with online oracles",
                   "level": "exploration",
                   "level_note": p["note"] or "Every generated execution is judged by monitors written from the property; assurance is limited to the executions explored (counts in the evidence file). " + "; ".join(p["assumptions"]),
                   "evidence_file": "evidence/%s.json" % k})
w(os.path.join(VERIF, "properties.jsonl"), "\n".join(lines) + "\n")
man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed in /repo: every monitor observes through the public API, the sanitizers and recorded outputs. deps/happly is absent in this sandbox; stubs/happly.h stands in so that the I/O sources and the edge-flip geodesics are built and monitored too."}
w(os.path.join(VERIF, "MANIFEST.json"), json.dumps(man, indent=1) + "\n")
