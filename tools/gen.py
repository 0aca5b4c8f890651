#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place where the property texts live)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, quant, why, files, mech, level_note, tech, observe=(), state=(), na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, note=level_note, tech=tech, observe=observe, state=state, na=na))


BASE = ("Small scope: exhaustive within the bounds in the evidence file; the reference model is plain loop code and the real "
        "functions (compiled by numba exactly as users run them) are executed on every case.")
T_SEQ = "exhaustive bounded enumeration of inputs/configurations on the real code against an executable reference model"
T_HIST = "explicit-state enumeration of all operation histories up to a depth on the real code against a reference model"
T_SCHED = "stateless model checking: all thread interleavings of the real code under a controlled scheduler"
T_FAULT = "exhaustive fault-point enumeration on the real code (every call site fails once) with a state monitor"

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"] is None and glob.glob(os.path.join(V, "mc", p["pid"].lower() + "_*.py")):
        checks.append({"property": p["pid"], "quick_cmd": "./run_check.sh %s" % p["pid"],
                       "thorough_cmd": "VERIF_TIER=thorough ./run_check.sh %s --thorough" % p["pid"],
                       "evidence_file": "evidence/%s.json" % p["pid"], "technique": "model checking: " + p["tech"],
                       "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["pid"], "reason": p["na"] or "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "claimed", [x["property"] for x in na])
