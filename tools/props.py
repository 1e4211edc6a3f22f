#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from parts import PARTS  # noqa: E402
I = "include/dice/template-library/"
PROPS = []
NA = {}
TECH = {}
NOTE = {}


def P(id, title, statement, over, qtext, why, files, mech, observe=None, na=None, note=None, tech=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": " ".join(qtext.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    PROPS.append(d)
    if na:
        NA[id] = " ".join(na.split())
    TECH[id] = tech
    NOTE[id] = note


exec(open(os.path.join(V, "tools", "props_list.py")).read())

SCHED_T = "deterministic simulation: library threads run as fibers under a seeded scheduler with fault injection; history checked against a reference model"
SEQ_T = "deterministic simulation: seeded operation histories with injected faults (allocation, exceptions), checked step by step against a reference model"
SCHED_N = ("Seeded search over interleavings and faults of the real header code in one process; one seed is one exactly repeatable run, failures come with a minimised replay file. "
           "A clean run is evidence, not proof. Trusts the simulator's model of pthread primitives and atomics.")
SEQ_N = ("Seeded search over operation histories and fault positions of the real header code under ASan and UBSan; failures come with a minimised replay file. "
         "A clean run is evidence, not proof.")

P_N = ("Seeded search over programs, ways to end and failing system calls and sinks, with real processes and signals (no sanitizers: their own calls would pass through the stand-ins); "
       "failures come with a minimised replay file. A clean run is evidence, not proof.")

ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
from parts import HARNESS  # noqa: E402
checks = []
na = []
for p in PROPS:
    i = p["id"]
    if i in PARTS:
        s = all(HARNESS[x["harness"]]["flavour"] == "S" for x in PARTS[i])
        pf = any(HARNESS[x["harness"]]["flavour"] == "P" for x in PARTS[i])
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i + " --thorough",
                       "technique": TECH[i] or (SCHED_T if s else SEQ_T), "level": "exploration", "level_note": NOTE[i] or (SCHED_N if s else P_N if pf else SEQ_N)})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every source of nondeterminism is behind a seam outside the library (pthread/futex/clock entry points, the tsan instrumentation interface, "
              "operator new, template parameters, system call wrappers). The /repo commits are fixes of genuine defects, listed in known_findings.txt. "
              "'python3 check.py replay FILE' replays a violation."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "claimed,", len(na), "not applicable")
