#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
T = {}
def t(id, technique, level, note): T[id] = (technique, level, note)

FS = "bounded exhaustive: within the stated names, sizes and depths every reachable tree and every operation is executed on the real code; trusts the reference model (a map of paths) and the kernel's file system"
t("C01", "explicit-state exploration (BFS of a reference model, every transition replayed on the real code) plus all unmerged histories to a depth", "model_checking", FS)
t("C02", "explicit-state exploration with full-tree comparison after every creation", "model_checking", FS)
t("C03", "explicit-state exploration with full-tree comparison after every removal", "model_checking", FS)
t("C04", "exhaustive enumeration of trees x walk roots x callback answers, against a model walk", "model_checking", FS)
t("C05", "exhaustive interleaving of operations of up to three handles, against constant-string cursors", "model_checking", FS)
t("C06", "exhaustive enumeration of trees x directories x count sequences, against the model's children", "model_checking", FS)
t("C07", "explicit-state exploration, in-memory and on-disk implementation in lock step", "model_checking", FS)
exec(open(os.path.join(root, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(root, "tools", "manifest_more.py")) else None

checks, na = [], []
for i in ids:
    if i in T:
        a, l, n = T[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "technique": "model checking: " + a, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "not built yet: the check for it is planned in DESIGN.md"})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: schedules are explored on sources instrumented at check time into a build overlay."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
