#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
ENG = "Generated configurations and key histories run through the real parser and engine (ASan, virtual time) in lock step with "
T = {}  # id -> (technique, level_note)
MODEL = ("model-based property testing (differential against a reference model)",
         ENG + "an independent reference model; the whole output trace (keys, layer changes, waits, times) must agree. Sampling, no proof of absence; the model is trusted, and cases outside its stated domain (DESIGN.md) are discarded and counted.")
INV = ("property-based testing (invariant over generated histories)",
       "Generated configurations and key histories through the real parser and engine under ASan on virtual time; the invariant is judged on the output alone. Sampling, no proof of absence.")
META = ("property-based testing (metamorphic relation on generated histories)",
        "Generated configurations and histories through the real parser and engine under ASan on virtual time; two related runs must give related outputs. Sampling, no proof of absence.")
for i in "C03 C04 C06 C07 C08 C09 C10 C11 C12".split(): T[i] = MODEL
for i in "C01 C02".split(): T[i] = INV
T["C05"] = (MODEL[0] + " with run-time rebinding and redundant events", MODEL[1])
T["C13"] = META
T["C14"] = ("property-based testing / fuzzing of key histories under sanitizers", "Abusive generated histories and configurations under ASan and UBSan with a hang watchdog, then a liveness probe. Sampling, no proof of absence.")
for i in "C16 C17 C18".split(): T[i] = META
T["C19"] = ("property-based testing (differential: run-time bind against configuration file)", META[1])
EXTRA = os.path.join(ROOT, "tools", "manifest_extra.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = globals().get("NA", {})
checks = []
na = []
for i in ids:
    if i in T:
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T[i][0], level="exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "its check is not built yet")))
json.dump(dict(version=1, setup_cmd="./check --build", checks=checks, not_applicable=na,
               notes="No hooks: /repo's sources are compiled unmodified, with linker-level stand-ins (--wrap)."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
