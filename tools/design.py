"""Append the list of planted bugs to DESIGN.md"""
import glob, json
p = "/verif/DESIGN.md"
s = open(p).read()
i = s.index("`tools/plant.py` verifies")
j = s.index("\n\n", i)
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/")))
open(p, "w").write(s[:j] + "\n\n| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")
