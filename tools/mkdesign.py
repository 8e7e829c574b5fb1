"""mkdesign.py: DESIGN.md from design/*.md, known_findings.json and seeded/."""
import json, os
H = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
r = lambda n: open(os.path.join(H, "design", n)).read()
k = json.load(open(os.path.join(H, "known_findings.json")))
fixed = "\n".join("* " + e["entry"].replace("fixed: property=", "") for e in k["fixed"])
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
S = os.path.join(H, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["property"]))
t = r("head.md") + r("props.md") + r("tail.md")
open(os.path.join(H, "DESIGN.md"), "w").write(t.replace("@FIXED@", fixed).replace("@SEEDS@", "\n".join(rows)))
