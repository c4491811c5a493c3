#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught/*.json."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = []
for i in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{i}/meta.json"))
    c = {}
    if os.path.exists(f"tools/caught/{i}.json"):
        c = json.load(open(f"tools/caught/{i}.json"))
    by = ", ".join(p for p, x in c.items() if x == 1) or "–"
    no = ", ".join(p for p, x in c.items() if x == 0) or ""
    what = m["what_it_breaks"].split("\n")[0].replace("|", "\\|").rstrip(".")
    rows.append((m["property"], f"| `{i}` | {m['property']} | {what} | {by} | {no} |"))
rows.sort()
t = "<!-- seeds -->\n| change | of | what it breaks | caught by | quiet neighbours |\n|---|---|---|---|---|\n" + "\n".join(r for _, r in rows) + "\n<!-- /seeds -->"
s = open("DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->|<!-- seeds -->", lambda _: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
