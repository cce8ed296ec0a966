#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
# planted bugs that the check of their property missed at first, and what was added
MISSED = {
    "any-std-path": "look-alikes reachable by paths that end like the standard ones",
    "filter-twice-attrs": "helper arguments repeated over several attributes",
    "nested-end-span": "errors of nested lists compared with the nested list parsed alone",
    "rest-raw-key": "raw undeclared names; raw names decided by the model",
    "raw-spelling": "declared names written raw; raw names decided by the model",
    "many-arguments": "rare lists of up to 700 items",
    "rest-twice-styles": "the macro itself must report the fault, at the offending field",
    "qualified-assoc": "associated types of a type parameter, called like special types",
    "combined-errors-lost": "a value type whose parser combines errors",
}
MISSED |= json.loads((root / "tools/missed.json").read_text()) if (root / "tools/missed.json").exists() else {}
rows = ["| bug | property | what it breaks | check |", "| --- | --- | --- | --- |"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    how = f"{m['property']}, after adding: {MISSED[d.name]}" if d.name in MISSED else m["property"]
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks'].replace('|', chr(92) + '|')} | {how} |")
p = root / "DESIGN.md"
t = p.read_text()
a, b = "<!-- seeded table -->", "<!-- end of seeded table -->"
if b not in t:
    t = t.replace(a, a + "\n" + b)
i, j = t.index(a) + len(a), t.index(b)
p.write_text(t[:i] + "\n" + "\n".join(rows) + "\n" + t[j:])
