#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of claimed checks."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE_S1 = ("Seeded search over simulated executions of the real compiler, VM, REPL and library against an executable reference model; "
           "trusts the model (sim/src/model.rs) and covers the language subset its generator produces. No violation found is evidence, not proof.")
T1 = "deterministic simulation with fault injection (seeded in-process session simulator, reference model)"
CLAIMED = {k: (T1, NOTE_S1) for k in "C01 C02 C03 C04 C05 C06 C12 C13 C14 C15 C16 C17 C18 C20".split()}
T2 = "deterministic simulation with fault injection (seeded whole-process simulator, operating system behind a preloaded seam, reference model)"
NOTE_S2 = ("Seeded search over simulated runs of the shipped binary, whose operating-system calls the simulator answers; output, foreign calls and disk are compared with an executable reference model; "
           "trusts the model and the simulated kernel (sim/proc/shim.c). No violation found is evidence, not proof.")
CLAIMED.update({k: (T2, NOTE_S2) for k in "C07 C08 C09 C10 C11 C19".split()})
PURE = "A function of one input: no schedule, fault, time, I/O or history for a simulator to vary; deciding it is input enumeration or proof, not deterministic simulation."
TODO = "Not built yet."
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CLAIMED:
        t, n = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} --thorough", "technique": t, "level": "exploration", "level_note": n})
    else: na.append({"property": p, "reason": PURE if p.startswith("N") else TODO})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "Every check builds the simulator from /repo's working tree. Replays: target/sim/debug/sim replay FILE. Known findings and repairs: KNOWN_FINDINGS.txt."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
