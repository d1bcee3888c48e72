#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the table of planted changes"""
import json, os
R = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
out = open(R + "/tools/design_head.md").read().rstrip() + "\n\n"
notes = json.load(open(R + "/tools/seed_notes.json"))
out += """## Planted changes and what catches them

Written by tools/seed.py from tools/specs (each is one S(...) entry) and tried with tools/plant.sh:
the change builds and passes the tests, its demonstration passes without and fails with it. The
last column is the check that catches it in the quick tier; a note says what had to be
strengthened first.

| id | property | what it breaks | needs | caught by |
|---|---|---|---|---|
"""
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out += f"| {d} | {m['property']} | {e(m['what_it_breaks'])} | {e(m['needs'])} | {e(notes.get(d, m['property']))} |\n"
open(R + "/DESIGN.md", "w").write(out)
