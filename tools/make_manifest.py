#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of engines and the property titles."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
sys.path.insert(0, HERE)
NA = {
    "C19": "pure numerical functions of their arguments: nothing nondeterministic to simulate (what they contribute to figures of recorded histories is covered by C21)",
    "C20": "pure in-memory bookkeeping driven by one caller: no schedule, clock, I/O, randomness or fault (its effects on executed circuits are covered by C11 and C12)",
    "C22": "diagrams and graph exports are pure functions of the circuit or layout passed in: nothing nondeterministic to simulate",
}
TECH_P = "deterministic simulation with fault injection: real pipeline code on a simulated machine, seeded schedules and faults, ledger oracle"
TECH_Q = "deterministic simulation with fault injection: seeded execution of the circuits with every random outcome and physical fault decided by the seed"
NOTE_P = ("Seeded search, not proof: held on every simulated run of the tier. Trusts the simulator's model of the operating system (atomic "
          "O_APPEND writes, prefix-preserving power loss, _pyio buffering) and the stubs named in the evidence.")
NOTE_Q = ("Seeded search, not proof: held on every simulated execution of the tier. Trusts stim's stabilizer/frame simulators as the physics, "
          "and the independent reference model in /verif/dst.")
from dst.engines import ENGINES
checks = []
for p in props:
    if p["id"] not in ENGINES:
        continue
    q = "C10" < p["id"] < "C18" or p["id"] == "C23"
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py run {p['id']}",
                       thorough_cmd=f"python3 check.py run {p['id']} --thorough",
                       technique=TECH_Q if q else TECH_P, level="exploration", level_note=NOTE_Q if q else NOTE_P))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in ENGINES]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam is patched from outside (os, time, subprocess, stim sampler)."),
          open(HERE + "/MANIFEST.json", "w"), indent=1)
