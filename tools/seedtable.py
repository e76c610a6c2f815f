"""Rewrites the table of planted bugs in DESIGN.md."""
import json
import re
from pathlib import Path

V = Path(__file__).resolve().parents[1]
rows = ["| bug | needs | breaks |", "|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['needs']} | {m['what_it_breaks']} |")
p = V / "DESIGN.md"
s = p.read_text()
p.write_text(re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S))
