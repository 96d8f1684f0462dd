#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from gen import checks
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("TLC checks the property on the specification exhaustively within the stated constants and validates every recorded call of the "
        "real code against it: every observation of every event must be what the specification allows. Assurance for the code is that of "
        "the recorded executions (seeded generation plus inputs derived from the specification's transitions), not a proof over all inputs. "
        "Trusted: TLC, the compilers, the recording driver's reading of the public API.")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the public API shows the abstract state, checks build the unmodified headers", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "run.py PROPERTY builds drivers/*.cpp against /repo/include, records traces, validates them with TLC against spec/*.tla."}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "TLA+ specification checked with TLC; trace validation of recorded executions of the real code against it"),
        "level": "model_checking", "level_note": c.get("note", "") + NOTE})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
