#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between its heading and the next paragraph)."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
t = open(V + "/DESIGN.md").read()
if "@@SEEDED@@" in t: t = t.replace("@@SEEDED@@", "\n".join(rows))
else: t = re.sub(r"\| change \| property.*?\n\n", lambda _: "\n".join(rows) + "\n\n", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
