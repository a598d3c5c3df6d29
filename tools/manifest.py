#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
from props import PROPS
NA = {
 "N01": "A pure function of ray and objects: no schedule, time, I/O or fault enters, so there is nothing for a simulator to decide.",
 "N02": "Pure geometry, deterministic in its inputs; nothing for a scheduler or fault injector to vary.",
 "N03": "Pure linear algebra, deterministic in its inputs.",
 "N04": "A statistical identity between two pure integrands; independent of schedule, time and faults.",
 "N05": "A pure mapping from image coordinates to rays.",
 "N06": "Pure functions of colour values.",
 "N07": "A number-theoretic property of a pure function of index and base.",
 "N08": "Pure image arithmetic, single threaded, no I/O.",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} thorough",
            technique="deterministic simulation with fault injection: " + q["technique"],
            level=q.get("level", "exploration"), level_note=q["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Check not built yet.")))
json.dump(dict(version=1, setup_cmd="./check build", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the scheduler, clock, disk, network and process seams are put into copies of the Go standard library and of /repo's files by a build overlay (sim/overlay.py, sim/instr). Replay a violation with './check replay FILE'."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
