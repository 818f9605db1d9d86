#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught-by is the property of the bug)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = f"{root}/DESIGN.md"
text = open(path).read()
head = "| planted bug | caught by | what it takes |\n|---|---|---|\n"
at = text.index(head) + len(head)
end = text.index("\n\n", at)
old = dict(re.match(r"\| (\S+) \| (.*)", l).groups() for l in text[at:end].splitlines())
rows = []
for name in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{name}/meta.json"))
    rows.append(f"| {name} | " + old.get(name, f"{m['property']} | {m['needs']} |"))
open(path, "w").write(text[:at] + "\n".join(rows) + text[end:])
