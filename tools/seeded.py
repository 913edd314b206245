"""Write the table of planted bugs of DESIGN.md from seeded/*/meta.json and tools/seeded_results.json (id -> caught/missed)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
res = json.load(open(here + "/seeded_results.json"))
rows = ["| bug | property | needs | breaks | its check |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(i, '?')} |")
p = root + "/DESIGN.md"
s = open(p).read()
a, b = s.split("<!-- seeded -->")
b = b.split("<!-- /seeded -->")[1]
open(p, "w").write(a + "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->" + b)
