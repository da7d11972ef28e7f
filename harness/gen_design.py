"""Fill the tables of DESIGN.md that follow from other files."""
import json
import re
from pathlib import Path

root = Path(__file__).resolve().parent.parent
rows = ["| id | property | needs | missed at first |", "|----|----------|-------|-----------------|"]
FIRST = {"c02-resolve-sklearn": "yes: dormant modules and imports of loaded modules added",
         "c15-list-start": "yes: the markdown of every element is now specified",
         "c20-metrics": "barely (free threads only): histories of cards made the same way added"}
FIRST.update(json.loads((root / "seeded" / "missed.json").read_text()) if (root / "seeded" / "missed.json").exists() else {})
for d in sorted((root / "seeded").iterdir()):
    if (d / "meta.json").exists():
        m = json.loads((d / "meta.json").read_text())
        rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {FIRST.get(d.name, '')} |")
p = root / "DESIGN.md"
s = p.read_text()
n = sum(line.startswith("fixed:") for line in (root / "known_findings.txt").read_text().splitlines())
s = s.replace("@NFIX@", str(n))
s = re.sub(r"failure \(\d+ of them\)", f"failure ({n} of them)", s)
s = re.sub(r"(## Planted bugs\n\n.*?\n\n).*", lambda m: m[1] + "\n".join(rows) + "\n", s, flags=re.S)
p.write_text(s)
