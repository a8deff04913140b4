#!/usr/bin/env python3
"""Writes /verif/BOUNDS.md from evidence files: gen_bounds.py DIR
(DIR holds <id>.json of one tier; the quick tier by default)."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
d = sys.argv[1] if len(sys.argv) > 1 else os.path.join(here, "..", "evidence")
out = ["# What the checks explored, group by group", "", "Written by tools/gen_bounds.py from the evidence of a run on the unchanged tree; `executions` are runs of",
       "the library judged against the models (groups count evaluated cases; one case may run several styles or uses).", ""]
for f in sorted(glob.glob(os.path.join(d, "C*.json"))):
    e = json.load(open(f)); c = e["coverage"]
    out += [f"## {e['property']} ({e['tier']})", "", f"{c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} cases judged, exhaustive within the bounds: {c['exhaustive']}", ""]
    out += [f"* {g['executions']} - {g['what'].strip().rstrip(',')}" for g in c["groups"]] + [""]
open(os.path.join(here, "..", "BOUNDS.md"), "w").write("\n".join(out))
