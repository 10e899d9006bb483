#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    x = json.loads(m.read_text())
    rows.append((x["property"], m.parent.name, x["needs"].replace("|", "/")))
rows.sort()
txt = "| change | caught by | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (n, p, d) for p, n, d in rows)
p = root / "DESIGN.md"
s = p.read_text()
a, b = "<!-- seeds -->\n", "<!-- end seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + "\n" + txt + "\n" + s[j:])
print(len(rows))
