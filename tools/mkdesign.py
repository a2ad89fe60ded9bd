"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.  usage: python3 tools/mkdesign.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted changes and the checks that catch them\n"
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read().split(MARK)[0].rstrip() + "\n\n" + MARK
rows = []
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
text += f"""
{len(rows)} changes are kept in `seeded/`; each was written from a property's text and the code, builds, passes the existing tests and has a
demonstration. Every one is caught by the quick check of the property it was written for (column 2; other checks often report it as well).
About half were missed when first tried; what was added for them is in the bounds of the check named.

| change | caught by | what it breaks | needs |
|--------|-----------|----------------|-------|
"""
open(path, "w").write(text + "\n".join(rows) + "\n")
