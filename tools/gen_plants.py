#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/plants.tsv (what was missed at first)."""
import json, pathlib, re
here = pathlib.Path(__file__).resolve().parent.parent
missed = dict(l.split("\t", 1) for l in (here / "tools/plants.tsv").read_text().splitlines() if l.strip())
rows = []
for m in sorted((here / "seeded").glob("*/meta.json")):
    j, i = json.loads(m.read_text()), m.parent.name
    what = j["what_it_breaks"].split("\n")[0].strip()
    if len(what) > 170 and ". " in what:
        what = what.split(". ")[0]
    rows.append(f"| {i}: {what.rstrip('.')} | {j['property']} | {'missed' if i in missed else 'caught'} | {missed.get(i, '')} |")
d = here / "DESIGN.md"
s = d.read_text()
head = "| bug | property | first | what was added |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
b = re.compile(r"\n\n").search(s, a).start()
d.write_text(s[:a] + "\n".join(rows) + s[b:])
