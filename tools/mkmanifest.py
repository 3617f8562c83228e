#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC = "bounded exhaustive input-space exploration of the real parser/printer against an independent reference model"
C = {}
def c(id, technique, level, note):
    C[id] = {"property": id, "quick_cmd": f"VERIF_TIER=quick ./run.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {id}",
             "evidence_file": f"evidence/{id}.json", "technique": technique, "level": level, "level_note": note}
DN = " Every text of the listed spaces (words over token and character alphabets in 36 contexts, gap fillers singly and in pairs, structure trees, count/depth/length sweeps, all single edits of rich documents) is decided; texts outside the spaces are not. Trusts the reference model in mc/."
c("C01", DOC, "exploration", "Acceptance equals the reference grammar on every enumerated text." + DN)
c("C02", DOC, "exploration", "Tree equals the reference derivation on every enumerated text." + DN)
c("C03", DOC, "exploration", "Comment attachment equals the reference on every enumerated text." + DN)
c("C04", DOC, "exploration", "Format round trip on every enumerated text." + DN)
c("C05", DOC, "exploration", "Idempotence on every enumerated text." + DN)
c("C06", DOC, "exploration", "Comment survival on every enumerated text." + DN)
c("C07", DOC, "exploration", "Position of every node on every enumerated text." + DN)
c("C08", DOC, "exploration", "Warnings equal the reference on every enumerated text." + DN)
c("C09", DOC, "exploration", "Option on/off compared on every enumerated text." + DN)
c("C10", DOC, "exploration", "Every rejected enumerated text gives a well-formed, repeatable error; crashes and hangs are caught by process isolation." + DN)
c("C25", DOC, "exploration", "Output equals the reference layout byte for byte on every enumerated text." + DN)
exec(open(os.path.join(ROOT, "tools", "manifest_more.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in C]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [C[p] for p in props if p in C], "not_applicable": na,
     "notes": "One harness (mc/), compiled into the module under test by a build overlay; no hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
