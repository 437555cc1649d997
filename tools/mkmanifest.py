#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property that has a scenario."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = []
for f in sorted(os.listdir(os.path.join(HERE, "sim"))):
    if f.startswith("scen_"):
        claimed += re.findall(r'^    id = "(C\d\d)"', open(os.path.join(HERE, "sim", f)).read(), re.M)
PURE = ("a pure function of its input: no schedule, clock, fault, I/O, interleaving or history "
        "takes part in it, so a seeded simulator would only be input generation under another name")
NA = {
    "C30": "equilibrium of one analysis is " + PURE,
    "C31": "superposition of one analysis is " + PURE,
    "C32": "reciprocity is " + PURE,
    "C33": "the load formulas are " + PURE,
    "C34": "member accuracy is " + PURE,
    "C35": "the agreement with Mueller-Breslau is " + PURE,
    "C36": "modal convergence is " + PURE,
    "C37": "the plastic bounds of one run are " + PURE,
    "C38": "tendon equivalent loads are " + PURE,
    "C39": "parsing a notation is " + PURE,
    "C40": "library axle values are constants: " + PURE,
    "C41": "the fidelity of a drawing is " + PURE,
}
TECH = "deterministic simulation with fault injection: seeded operation/fault sequences on the real " \
       "code, judged against %s"
ORACLE = {
    "C01": "a newly built model analysed in a pristine process",
    "C02": "bit-exact before/after state and a newly built model",
    "C03": "an independent stability classifier and a newly built model",
    "C04": "bit-exact snapshots taken when each result was handed out",
    "C05": "separate static analyses of each position in a pristine process",
    "C06": "before/after state of the bridge and later fresh analyses",
    "C07": "separate unit-load analyses of each position",
    "C08": "direct analyses of the template under each case",
    "C09": "direct analyses of harness-enumerated arrangements",
    "C10": "a reference model of the envelope arrays",
    "C11": "a first run in a pristine process",
    "C12": "exact read-back under simulated disk faults",
    "C13": "file contents under simulated disk and compiler faults",
    "C14": "a reference model of the settings, under drawing faults",
    "C15": "bit-exact before/after state under drawing faults",
    "C16": "each thread's work run alone, under seeded line-level interleavings",
    "C17": "bit-exact before/after state and fresh analyses",
    "C18": "a value-semantics reference model of every object",
    "C20": "a per-copy ledger and newly built objects in a pristine process",
    "C19": "a newly built model's modes in a pristine process",
}
checks = []
for p in sorted(claimed):
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run.py check {p} --tier quick",
        "thorough_cmd": f"python3 run.py check {p} --tier thorough",
        "technique": TECH % ORACLE[p],
        "level": "exploration",
        "level_note": "Seeded random search over histories, schedules and faults; samples, does not "
                      "enumerate. One integer (VERIF_SEED) decides every run; violations are "
                      "minimised and replayed from a file.",
    })
na = [{"property": k, "reason": v} for k, v in NA.items()]
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
for i in ids:
    if i not in claimed and i not in NA:
        na.append({"property": i, "reason": "no check registered yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is installed from outside (numpy/scipy/matplotlib/"
              "plotly/os call seams, sys.settrace lines, fork). See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print([c["property"] for c in checks])
