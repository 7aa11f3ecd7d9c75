#!/opt/venv/bin/python
"""Development tool: writes the table of planted bugs into DESIGN.md (between the markers) from seeded/*/meta.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
p = ROOT / "DESIGN.md"
s = p.read_text()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
p.write_text(s)
