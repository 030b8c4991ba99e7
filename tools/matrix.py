"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/plant_results.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.path.join(V, "tools", "plant_results.json")
res = json.load(open(R)) if os.path.exists(R) else {}
for log in sys.argv[1:]:
    for line in open(log):
        w = line.split()
        if len(w) > 1 and ":" in w[1] and os.path.isdir(os.path.join(V, "seeded", w[0])):
            got = [x for x in w[1:] if ":CAUGHT" in x or ":missed" in x]
            for x in got[:20]:
                p, r = x.split(":")[:2]
                res.setdefault(w[0], {})[p] = r
json.dump(res, open(R, "w"), indent=1, sort_keys=True)
MARK = "## Planted bugs and who catches them\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split(MARK)[0] + MARK + "\n| bug | needs | caught by |\n|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    r = res.get(d, {})
    c = [k for k in sorted(r) if r[k] == "CAUGHT"]
    s += "| {} | {} | {} |\n".format(d, " ".join(m["needs"].split()), ", ".join(c) if c else ("missed" if r else "not run"))
open(p, "w").write(s)
