"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tools/caught.json"))
rows = ["<!-- seeds -->", "| id | property | breaks | needs | result of the quick check |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], c.get(d, "?")))
rows.append("<!-- /seeds -->")
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("@SEEDS@", t) if "@SEEDS@" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
