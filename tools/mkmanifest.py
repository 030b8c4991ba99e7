"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from dsim.props import TABLE
import notes

NA = {
    "C16": "A pure function of the arrays given to Mesh: no schedule, clock, I/O, fault or history takes part, so a simulator "
           "has nothing to decide; checking it would be plain property-based testing, not this technique. (History "
           "independence and thread safety of these computations are covered by C11-C13, geometry of edited meshes by C18.)",
}
PENDING = "No check yet (being built)."
COMMON = ("Sampled, not exhaustive. Trusted: the harness's own models and generators, CPython's buffered I/O, numpy, meshio, "
          "HDF5 (whose own file I/O bypasses the fault injector).")

checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f]
for i in ids:
    if i in TABLE:
        checks.append({
            "property": i,
            "quick_cmd": "./check {} --tier quick".format(i),
            "thorough_cmd": "./check {} --tier thorough".format(i),
            "evidence_file": "evidence/{}.json".format(i),
            "technique": notes.TECHNIQUE[TABLE[i][0]],
            "level": "exploration",
            "level_note": notes.NOTE[TABLE[i][0]] + " " + COMMON,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
doc = {
    "version": 1,
    "setup_cmd": "./check --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all seams (open, os, shutil, time, code events, interpreter processes) are reached from outside.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), len(na))
