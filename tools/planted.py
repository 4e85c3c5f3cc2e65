#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json

tools/planted.json has what they made necessary: {"bug": "note"}"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, "tools/planted.json")))
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    n = notes.get(b, "caught at once")
    rows.append((m["property"], b, m["what_it_breaks"], n))
rows.sort()
s = open(os.path.join(V, "DESIGN.md")).read()
i = s.index("## Planted bugs")
out = """## Planted bugs

Each was written from the text of a property and the code, in a scratch copy,
passes the existing tests and has a demonstration (`seeded/`). The check of the
property it breaks is the one that has to catch it, and the quick tier with seed 1
is what "caught" refers to.

| Property | Bug | What it breaks | Check |
|---|---|---|---|
"""
for p, b, w, n in rows:
    out += "| %s | %s | %s | %s |\n" % (p, b, w.replace("|", "/").replace("\n", " "), n)
open(os.path.join(V, "DESIGN.md"), "w").write(s[:i] + out)
