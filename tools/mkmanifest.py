#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, sys
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else [f"C{i:02}" for i in range(1, 30)]
TECH = {
 "sm": "property-based testing: generated StructMeta definitions x generated argument lists against a reference model (proptest, shrinking)",
 "node": "property-based testing: generated Parse/ToTokens definitions x generated token sequences against a reference model and round trips (proptest, shrinking)",
}
EXTRA = {
 "C01": "plus metamorphic permutation of named arguments",
 "C07": "plus metamorphic re-layout (white space, comments, trailing comma, invisible groups)",
 "C09": "random token soup and mutated lists on generated StructMeta and Parse types; panics, hangs and non-determinism are violations",
 "C19": "generated well-formed definitions must compile and agree with the model, and must compile in crates with no more dependencies than they need",
 "C20": "fault injection into generated well-formed definitions; compiler diagnostics are the oracle",
 "C21": "generated spellings of special types and look-alike types, compiled and compared with the model",
 "C22": "differential: dumped code pasted in place of the derive, compared with the model",
 "C23": "algebraic laws over generated Flag/NameValue/NameArgs values",
 "C26": "metamorphic: copies of generated definitions in shuffled builds in several processes must expand to the same code or error",
 "C27": "differential: the same text as tokens of the compiler in a running procedural macro, and outside of it",
 "C28": "every field type records where its parser is called; the record against that of the reference reading",
 "C29": "metamorphic: generated definitions compiled with the derives and with derives that write nothing must give the same compiler warnings",
 "C25": "differential: the parser of the failing value run alone in the same place must give the same error",
 "C24": "plus differential of an inner list inside the outer list against the same list on its own",
}
FAM = {i: "node" for i in ["C13","C14","C15","C16","C17","C18"]}
NOTE = ("Exploration only: no violation on the generated definitions and inputs of this run (counts in the evidence file). "
        "Trusts rustc, syn/quote/proc-macro2 and the reference model in /verif/kit, which is itself checked against values known by construction.")
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
    "property": p,
    "quick_cmd": f"./run.sh check {p} quick",
    "thorough_cmd": f"./run.sh check {p} thorough",
    "technique": TECH[FAM.get(p, "sm")] if p not in ("C20","C23","C26","C29") else "property-based testing",
    "level": "exploration",
    "level_note": NOTE,
 } for p in CLAIMED],
 "not_applicable": [{"property": f"C{i:02}", "reason": "check not built yet"} for i in range(1, 30) if f"C{i:02}" not in CLAIMED],
 "notes": "See DESIGN.md. A failing case is written to /verif/replays and can be run again with ./run.sh replay FILE.",
}
for c in m["checks"]:
    e = EXTRA.get(c["property"])
    if e:
        c["technique"] = (c["technique"] + "; " + e)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
