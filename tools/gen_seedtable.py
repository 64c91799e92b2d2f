"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all are caught by the check of their own property)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|----|----|----|----|----|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | check {m['property']} |")
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
