"""Writes the table of planted bugs into DESIGN.md."""
import glob, json
rows = ["| bug | property | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {d['property']} | {d['what_it_breaks']} |")
p = "/verif/DESIGN.md"
s = open(p).read()
a = "by the check of their property:\n"
b = "\nMissed at first"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
