#!/usr/bin/env python3
"""Rewrites the table of planted bugs and the list of findings at the end of DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs\n"
D = os.path.join(ROOT, "DESIGN.md")
text = open(D).read().split(MARK)[0].rstrip() + "\n\n" + MARK
text += ("Each was written from the property's text, confirmed (builds, 91 tests pass, demonstration fails), and kept. All are caught by "
         "the quick check of their property (column 2); where a first version of a check missed one, the check was strengthened.\n\n"
         "| change | caught by | needs | breaks |\n|---|---|---|---|\n")
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    text += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))
text += "\n## Defects found in nfempy\nRepaired (one `fix:` commit each) and listed findings, from `known_findings.txt`:\n\n"
for l in open(os.path.join(ROOT, "known_findings.txt")):
    if l.strip() and not l.startswith("#"):
        text += "- " + l.strip() + "\n"
open(D, "w").write(text)
