#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
late = {"C08e", "C13c", "C16e", "C21f", "C10d", "C20g", "C05b", "C06a", "C12b", "C19b", "C20d", "C03e", "C16d"}   # missed first; the check was strengthened
s = open("DESIGN.md").read()
head = s[:s.index("## Planted changes")]
rows = []
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[1]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
    if i in late: rows[-1] = rows[-1].replace("| %s |" % i, "| %s * |" % i, 1)
text = """## Planted changes

Every folder of `seeded/` holds one change, with a demonstration. All of them are caught by the quick check of
their property (exit 1 with its VIOLATION line). A star marks those that the check missed when the change was
planted and that made the specification, the generators or the trace grow.

| id | caught by | what it breaks | what it needs |
|---|---|---|---|
"""
open("DESIGN.md", "w").write(head + text + "\n".join(rows) + "\n")
