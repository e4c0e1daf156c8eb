#!/usr/bin/env python3
"""Writes checks.json (what check.py runs per property) and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, NA = {}, {}
SEQ = "stateless model checking of the real code: exhaustive enumeration of operation sequences, inputs and environment answers within bounds"
THR = "stateless model checking of the real code: all schedules within a preemption bound under a controlled scheduler with a C++ memory-model (stale-read) and race checker"
ENV = "stateless model checking of the real code against a simulated environment: every event order, system-call result and timer choice within bounds"
COMMON = ["the compilers' translation of the code", "the bounds listed per scenario in the evidence"]


def check(pid, harnesses, technique, level, note, explanation, assumptions=(), budget=None):
    C[pid] = {"level": level, "harnesses": [h if isinstance(h, dict) else {"name": h} for h in harnesses],
              "budget": budget or {"quick": 420, "thorough": 3000}, "technique": technique, "note": note,
              "explanation": explanation, "assumptions": COMMON + list(assumptions)}


def na(pid, why):
    NA[pid] = why


exec(open(os.path.join(HERE, "vlib", "checks_def.py")).read())

json.dump({k: {x: v[x] for x in ("level", "harnesses", "budget", "explanation", "assumptions")} for k, v in C.items()},
          open(os.path.join(HERE, "checks.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": k, "quick_cmd": "python3 vlib/check.py %s quick" % k,
                 "thorough_cmd": "python3 vlib/check.py %s thorough" % k, "technique": v["technique"], "level": v["level"],
                 "level_note": v["note"]} for k, v in C.items()],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Each check builds its harnesses (harness/*.cpp) with the /repo sources they reach into _build and explores them; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for i in ids:
    assert (i in C) != (i in NA), i
for h in {h["name"] for v in C.values() for h in v["harnesses"]}:
    assert os.path.exists(os.path.join(HERE, "harness", h + ".cpp")), h
