"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only)."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parents[1]
FIRST_MISSED = {
    "empty-mask-restarted": "missed at first: cells outside the glacier always had a mask value of 0; empty ones added",
    "warm-snow-layer": "missed at first: snow never fell deep in warm air; 'dump' weather added",
    "sky-ignores-terrain": "missed at first: sky views were only checked on level ground; inclined slopes below terrain added",
    "snow-height-stops-at-lens": "missed at first: traces never resumed from columns with crusts; resumed aged columns added",
    "sublimated-layer-water": "missed at first: weather never sublimated a wet layer whole; 'storm' weather added",
    "stale-compiled-constants": "missed at first: every compiled run had its own fresh cache; an earlier run with other constants added",
    "stake-pit-first-date": "missed at first: stake rows always fell on simulated steps; rows outside and between added",
    "roughness-age-of-old-snow": "missed at first: the driven fresh-snow record always had a positive height",
    "output-appended": "missed at first: no run met the output file of an earlier one",
    "config-path-relative-to-install": "missed at first: relative paths resolved alike from both folders",
    "layer-count-in-a-byte": "missed at first: no compiled column had more than 127 layers",
}
rows = []
for meta in sorted((ROOT / "seeded").glob("*/meta.json")):
    d = json.loads(meta.read_text())
    rows.append((d["property"], meta.parent.name, d["needs"], FIRST_MISSED.get(meta.parent.name, "")))
rows.sort()
table = ["| property and check | change | needs | |", "|---|---|---|---|"]
table += [f"| {p} | {n} | {w} | {m} |" for p, n, w, m in rows]
path = ROOT / "DESIGN.md"
text = path.read_text()
text = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m[1] + "\n".join(table) + "\n" + m[2], text, flags=re.S)
path.write_text(text)
