"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = open(V + "/DESIGN.md").read().split("\n")
i = next(k for k, l in enumerate(L) if l.startswith("| property = check")) + 2
j = i
while L[j].startswith("|"):
    j += 1
rows = []
for p in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (m["property"], os.path.basename(os.path.dirname(p)), m["needs"].replace("|", "/")))
L[i:j] = sorted(rows)
open(V + "/DESIGN.md", "w").write("\n".join(L))
print(len(rows))
