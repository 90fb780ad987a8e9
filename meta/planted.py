"""Regenerates the table of DESIGN section 6 from seeded/*/meta.json (a development aid; no check runs it)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"]))
p = H + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| id \| caught by \| what it breaks \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
