"""Fill the table of planted bugs at the end of DESIGN.md from seeded/ and a sweep's results.

usage: tools/table.py RESULTS.json   (id -> property whose check caught it, or null)
"""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
MARK = "<!-- planted -->"
caught = json.loads(Path(sys.argv[1]).read_text())
rows = []
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    got = caught.get(d.name)
    rows.append((m["property"], d.name, m["needs"].replace("|", "/"), got or "missed"))
rows.sort()
text = (ROOT / "DESIGN.md").read_text().split(MARK)[0] + MARK + "\n\n"
text += "| property | change | needs | caught by |\n|---|---|---|---|\n"
text += "".join(f"| {p} | {n} | {w} | {g} |\n" for p, n, w, g in rows)
(ROOT / "DESIGN.md").write_text(text)
