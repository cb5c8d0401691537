#!/usr/bin/env python3
"""refresh the table of planted bugs in DESIGN.md"""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | property (caught by its check) | needs |", "|---|---|---|"]
for m in sorted(root.glob("seeded/*/meta.json"), key=lambda p: (json.loads(p.read_text())["property"], p.parent.name)):
    d = json.loads(m.read_text())
    rows.append("| %s | %s%s | %s |" % (m.parent.name, d["property"], "" if d.get("caught", True) else " (missed)", d["needs"].replace("|", "/").replace("\n", " ")))
p = root / "DESIGN.md"
s = p.read_text()
a, b = s.index("<!-- seeds -->"), s.index("<!-- end -->")
p.write_text(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
