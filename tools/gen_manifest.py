"""writes MANIFEST.json: one entry per check module present"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTE = ("Seeded search over schedules, clocks and faults with the real mabel code; no violation in the runs explored is evidence, not proof. "
        "Trusts the simulator (dst/), its storage stand-ins and the reference model in checks/%s.py.")
NA = {
    "C19": "Pure functions of their input: no concurrency, time, I/O or multi-party behaviour for a simulator to vary.",
    "C20": "Pure functions of their input: no concurrency, time, I/O or multi-party behaviour for a simulator to vary.",
    "C21": "Pure functions of their input: no concurrency, time, I/O or multi-party behaviour for a simulator to vary (where they steer readers and writers they are exercised through C05-C16).",
}
props = [json.loads(line) for line in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection",
                       "level": "exploration", "level_note": NOTE % i.lower()})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
doc = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every source of nondeterminism is replaced through module globals when the simulator loads its own copy of the code. "
                "A replay file is run with: python3 check.py --replay FILE [--trace]."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
