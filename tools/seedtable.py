#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(here + "/seeded/*/meta.json"):
    j = json.load(open(m))
    rows.append((j["property"], os.path.basename(os.path.dirname(m)), j["what_it_breaks"], j["needs"]))
rows.sort()
t = "| change | property | what it breaks | needs |\n|---|---|---|---|\n" + "".join(
    "| %s | %s | %s | %s |\n" % (i, p, b.replace("|", "\\|").rstrip("."), n.replace("|", "\\|").rstrip(".")) for p, i, b, n in rows)
d = open(here + "/DESIGN.md").read()
d = re.sub(r"<!-- seeds -->\n.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", d, flags=re.S)
open(here + "/DESIGN.md", "w").write(d)
