#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md.

Reads the "<id>: Pxx CAUGHT [...]" lines of plant.py check from the files given.
"""
import json
import pathlib
import re
import sys

verif = pathlib.Path(__file__).resolve().parent.parent
text = (verif / "DESIGN.md").read_text()
known = dict(re.findall(r"^\| (\S+) \| (.*) \|$", text, re.M))
for name in sys.argv[1:]:
    for line in open(name, encoding="utf-8"):
        m = re.match(r"(\S+): (P\d\d) (CAUGHT|MISSED)(?:[^\[]*\[['\"]--- P\d\d ([^#:]*))?", line)
        if m:
            known[m[1]] = f"{m[2]} {m[4] or ''}".strip() if m[3] == "CAUGHT" else f"{m[2]} missed"
rows = []
for folder in sorted((verif / "seeded").iterdir()):
    prop = json.loads((folder / "meta.json").read_text())["property"]
    rows.append(f"| {folder.name} | {known.get(folder.name, prop + ' unknown')} |")
    if folder.name not in known:
        print("unknown", folder.name)
head = text.split("<!-- table -->")[0]
(verif / "DESIGN.md").write_text(head + "<!-- table -->\n\n| change | caught by (check, case that reported first) |\n|---|---|\n" + "\n".join(rows) + "\n")
