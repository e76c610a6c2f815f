"""Regenerates MANIFEST.json from the list of checks below and properties.jsonl."""
import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
T = json.loads((V / "tools/checks.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and (V / "harness" / f"{i.lower()}.py").exists():
        checks.append(dict(property=i, quick_cmd=f"sh check.sh {i} quick", thorough_cmd=f"sh check.sh {i} thorough",
                           technique=T[i]["technique"], level="model_checking", level_note=T[i]["note"],
                           evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason="check under construction, not claimed yet"))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ specifications in specs/, checked with TLC; harness/ drives the real code and binds it to them. No hooks in /repo.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed", len(na), "not")
