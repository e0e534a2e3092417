#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.path.insert(0, V + "/gen")
import checks
TECH = "TLA+ specification (TLC): %s; conformance by replaying TLC-generated behaviours on the real parser and validating recorded calls against the specification"
NOTE = "Exhaustive over bounded argv scopes of chosen definitions plus seeded random definitions and command lines; every explored case is executed on the current tree."
WHAT = dict(
    C01="spelling metamorphism", C02="bundle expansion", C03="value consumption", C04="positional binding", C05="terminator", C06="trailing arguments",
    C07="subcommand scoping", C08="global arguments", C09="flatten = inline", C10="cardinality", C11="constraint satisfaction", C12="defaults", C13="byte handling and totality",
    C14="value conversion and enum names", C15="error attribution", C16="help trigger", C17="help content", C18="well-formedness of definitions", C19="help feature off",
    C20="process-level parse", C21="order independence", C22="independence of calls (schedules enumerated by TLC and followed read by read)", C23="which user code runs, how often and in which order (recorded events)")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
ch, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        ch.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=TECH % WHAT[i], level="model_checking", level_note=NOTE))
    else: na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=ch, not_applicable=na, notes="No hooks in /repo: everything is observed through the public API of the crate. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
