"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = json.load(open(os.path.join(V, "seeded.json"))) if os.path.exists(os.path.join(V, "seeded.json")) else {}
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], HOW.get(i, "")))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
mark = "<!-- planted -->\n"
s = s.split(mark)[0] + mark + "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(f, "w").write(s)
