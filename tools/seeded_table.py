"""Writes the table of planted bugs into DESIGN.md (development only)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['needs']} | {m.get('caught_by', m['property'] + ' quick')} |")
t = "<!-- planted -->\n| planted bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = open(H + "/DESIGN.md").read()
s = s.replace("@@SEEDED@@", "<!-- planted -->\n<!-- /planted -->")
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: t, s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)
