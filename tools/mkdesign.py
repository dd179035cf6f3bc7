"""Writes the generated tables at the end of DESIGN.md (development tool)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(f"{V}/known_findings.json"))
out = ["## Defects found and repaired", "", "Each line is a `fix:` commit in /repo; the check of the property reports the defect again if it returns.", ""]
by = {}
for l in kf["fixed"]:
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    by.setdefault(m[1], []).append(f"`{m[2]}` {m[3]}")
for p in sorted(by):
    out.append(f"* **{p}**: " + "; ".join(by[p]) + ".")
out += ["", "## Known findings (not repaired)", ""]
for f in kf["findings"]:
    out.append(f"* **{f['property']}** {f['what']}.")
out += ["", "## Planted bugs", "", "Every bug was confirmed in a scratch copy with `tools/plant.py`: the patch applies, builds, passes the 937 stable",
        "tests, its demonstration passes on the clean tree and fails on the planted one. The check named is the one that",
        "reports it at the quick tier with VERIF_SEED=1.", "", "| bug | caught by | breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{V}/seeded")):
    d = json.load(open(f"{V}/seeded/{i}/meta.json"))
    clean = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    out.append(f"| {i} | {d['property']} | {clean(d['what_it_breaks'])} | {clean(d['needs'])} |")
p = f"{V}/DESIGN.md"
s = open(p).read().split("<!-- generated -->")[0]
open(p, "w").write(s + "<!-- generated -->\n" + "\n".join(out) + "\n")
