"""Development tool: rewrite the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "* Seeded bugs (`seeded/`), written from the statements; which check catches which:\n"
text = open(V + "/DESIGN.md").read()
if MARK not in text:
    raise SystemExit("no table mark")
head = text[:text.index(MARK) + len(MARK)]
rows = ["", "| bug | needs | caught by |", "|---|---|---|"]
for id in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, id)))
    rows.append("| %s | %s | %s |" % (id, m["needs"], m.get("caught_by", m["property"])))
open(V + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
