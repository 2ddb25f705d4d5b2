"""Development tool: fill the seeded-bug table of DESIGN.md."""
import glob, json, os, re
rows = []
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    also = m.get("also", "")
    rows.append(f"| {n} | {m['property']} | {m['needs'].replace('|', '/')} | {m.get('caught', m['property'])} |")
t = open("/verif/DESIGN.md").read()
a, b = t.index("|----|----------|-------|-----------|\n") + len("|----|----------|-------|-----------|\n"), t.index("\nStrengthened because")
open("/verif/DESIGN.md", "w").write(t[:a] + "\n".join(rows) + "\n" + t[b:])
