"""DESIGN.md = method part (kept in it) + tools/design.md + table of seeds."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(ROOT, "DESIGN.md")).read().split(
    "## Verdicts, exit codes")[0].rstrip() + "\n\n"
body = open(os.path.join(ROOT, "tools", "design.md")).read()
rows = ["## Planted bugs", "",
        "Each passes the existing tests; its demonstration fails with it and "
        "passes without. All are caught by the check of their property.", "",
        "| seed | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(
    head + body + "\n".join(rows) + "\n")
