#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, pathlib

here = pathlib.Path(__file__).parent
props = [json.loads(l) for l in (here / "properties.jsonl").read_text().splitlines()]

LOCKSTEP = ("exhaustive enumeration of bounded event histories executed on the real code in lock step with an explicit "
            "reference model (explicit-state model checking with per-step conformance)")
SCHED = ("stateless model checking: controlled scheduler over the real threads, all schedules up to a preemption bound "
         "by depth-first search")
PY = "/opt/venv/bin/python check.py"
NOTE = ("Every event history over the stated alphabet and depth is run on the real classes and compared, after every event, "
        "with an independent model (plain Python, zoneinfo, integers and fractions). Complete within those bounds only; trusts the "
        "model in mc/, CPython, arrow and the zone database.")
NOTES = {
    "C23": ("Every schedule with up to the stated number of preemptions (or delays) over 2-4 orders, their request threads, failing requests "
            "and pollers is executed on the real provider; scheduling points stand before each library source line (opcodes in some scenarios). "
            "Complete within those bounds; assumes Python-level atomicity of single bytecodes and that all waiting goes through "
            "the threading primitives the scheduler replaces."),
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(
        property=i, quick_cmd=f"{PY} {i} --tier quick", thorough_cmd=f"{PY} {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        technique=SCHED if i == "C23" else LOCKSTEP, level="model_checking", level_note=NOTES.get(i, NOTE)))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
         notes="No hooks: the library is driven through its public API (C23 replaces the threading primitives from outside). "
               "ESTRADE_REPO overrides the checked tree (used only by hand-run mutation tests).")
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
