"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- SEEDS -->", "| planted bug | property | caught by | needs |", "|---|---|---|---|"]
missed = json.load(open(os.path.join(here, "tools", "missed.json"))) if os.path.exists(os.path.join(here, "tools", "missed.json")) else {}
for sid in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", sid, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (sid, m["property"], missed.get(sid, m["property"]), m["needs"].replace("|", "\\|")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
i = s.find("<!-- SEEDS -->")
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
