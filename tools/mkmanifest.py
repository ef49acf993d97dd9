#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (tools/plan.py) and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN

HIST = ("random operation histories on the real code, compared with an executable model after every operation, instrumented component "
        "types, address and undefined-behaviour sanitizers")
SIM = ("controlled scheduling of the real threads with a weak-memory model, ThreadSanitizer/AddressSanitizer, and monitors over the "
       "recorded executions, plus native stress")
TECH = {
    "C01": HIST, "C02": HIST, "C03": HIST, "C04": "instance ledger of instrumented component types over random histories, sanitizers",
    "C05": "interval and alignment monitor over random component layouts, AddressSanitizer and UBSan",
    "C06": "fault injection into component constructors and failing calls, full state comparison before/after, instance ledger",
    "C07": HIST, "C08": SIM + "; model comparison of the registry around every flush", "C09": SIM,
    "C10": SIM, "C11": SIM + "; conservation and order checks over unique values", "C12": SIM + "; per-element visit counters",
    "C13": SIM + "; begin/end event log of systems", "C14": SIM + "; overlap monitor over the event log of systems",
    "C15": SIM, "C16": "random operation histories compared with std::map, element ledger, sanitizers",
    "C17": "random operation histories compared with std::map/std::set, sanitizers",
    "C18": "interval monitor over random allocation histories, sanitizers",
    "C19": "random programs of one executable and several shared libraries run for real, ids and registries compared across them",
    "C20": "allocator and object statistics sampled over long churn histories",
}
NOTE = ("Exploration: a violation is reported with the execution that shows it; silence covers the executions observed (counted in the "
        "evidence), not all. Trusted: the monitors' models, the sanitizers, gcc 13 and its standard library.")
SIMNOTE = (" The controlled scheduler's memory model admits only behaviour the C++ memory model admits (self-tested with litmus programs), "
           "not all of it.")
CONC = {"C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"}

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
PENDING = "its monitor is not built yet"
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "CO_ECS_VERIF_HOOKS", "enable": "no hooks were needed: the library is header-only and the monitors observe it "
              "through its interface, the instrumented types they put into it, and the standard primitives it uses", "source_commits": []},
    "checks": [],
    "not_applicable": [{"property": p, "reason": PENDING} for p in props if p not in PLAN],
    "notes": "see DESIGN.md; known_findings.txt lists the defects that were repaired",
}
for p in props:
    if p in PLAN:
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration",
            "level_note": NOTE + (SIMNOTE if p in CONC else ""),
        })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
