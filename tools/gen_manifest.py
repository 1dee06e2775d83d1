#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (props.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SAN = "ASan+UBSan build, "
TECH = {
    "T01": SAN + "online model monitor of a string buffer under random write histories",
    "T02": SAN + "exact-size heap blocks and canary arenas around the buffer, view-consistency monitor",
    "T03": SAN + "output compared with an independent decimal renderer",
    "T04": SAN + "printed text parsed back and compared with the float value",
    "M01": SAN + "element-identity monitor over random chains of sub-views",
    "S01": SAN + "map model monitor of store/load histories",
    "S02": SAN + "reopen/clone monitor: contents, absence and room compared at random points of histories",
    "S03": SAN + "acceptance oracle and region diff in exact-size heap blocks",
    "S04": SAN + "opening and using damaged regions in exact-size heap blocks, interference monitor",
    "S05": "single-step (trap flag) snapshots after every instruction of a store, each reopened and checked against the model",
    "E01": "ASan/UBSan builds (g++, clang++), output compared with a byte-array reversal",
    "G01": SAN + "results compared with 128-bit arithmetic",
    "F01": SAN + "whole image compared with a bit-exact model after every pixel",
    "F02": SAN + "image size, default colour and clear compared with a bit-exact model",
    "V01": SAN + "recording frame buffer that rejects outside pixels, differential against a larger frame",
    "V02": SAN + "recording frame buffer, differential against the unrotated drawing",
    "V03": SAN + "recording frame buffer, exact rational line oracle",
    "V04": SAN + "recording frame buffer, exact rectangle oracle over every frame pixel",
    "V05": SAN + "recording frame buffer, symmetry/connectivity/flood-fill/distance oracles per radius",
    "V06": SAN + "recording frame buffer, drawn pixels compared with glyph bits of generated fonts",
    "V07": SAN + "rendered pixels compared with the reported bounds",
    "R01": SAN + "lookup of all 256 codes in generated fonts held in exact-size heap blocks",
}
try:
    from techniques import TECH as T2
    TECH.update(T2)
except ImportError:
    pass
NOTE = ("Held on the executions counted in the evidence file (seeded random and systematic workloads); the real sources of /repo are compiled and run, "
        "the oracle is independent of them. Trusts the compilers, sanitizers and the harness's oracle.")
NOTES = {}
try:
    from techniques import NOTES as N2
    NOTES.update(N2)
except ImportError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": PROPS[i].get("level", "exploration"),
                       "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --selfcheck", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors sit at API and hardware boundaries. Each check builds into build/ and removes it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
