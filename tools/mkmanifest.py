"""regenerates MANIFEST.json from properties.jsonl and the checks present in dst/props"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = ("pure function of its arguments: no schedule, clock, I/O, fault or history for the property to depend on, so a simulator has nothing "
        "to decide; sampling inputs under a simulator's name would be another technique")
NOTE = ("seeded search over simulated executions of the real code: every interleaving, fault and history is chosen by the simulator and replays exactly "
        "from a file. It samples and does not prove; it trusts CPython's eval-breaker placement (sys.monitoring points), numpy/scipy, and references "
        "taken from pristine processes running the same code.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "dst", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python dst/check.py %s" % i,
                       "thorough_cmd": "/opt/venv/bin/python dst/check.py %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection (seeded scheduler and faults over sys.monitoring points)",
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": PURE if i[0] == "P" else "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python dst/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is CPython's sys.monitoring. Commits in /repo are fix: commits only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
