#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; the results are committed).

A property is claimed when a module sim/props/pNN_*.py exists for it."""

import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
TECH = "deterministic simulation with fault injection: "

P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=(),
         level="exploration"):
    P[pid] = dict(
        rec={
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                "mechanism": [dict(name=a, where=b) for a, b in mech],
                "observe_at": list(observe) or ["public model state after each completed time step"],
                "hook_needed": None,
            },
        },
        technique=TECH + technique, note=note, level=level)


exec((V / "tools" / "props_text.py").read_text())

claimed = {p.stem.split("_")[0].upper() for p in (V / "sim" / "props").glob("p[0-9]*.py")}
na = {k: v for k, v in NOT_APPLICABLE.items()}

lines = [json.dumps(P[k]["rec"]) for k in sorted(P) if k in claimed]
lines += [json.dumps(r) for r in NA_RECORDS if r["id"] in na]
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "checks": [
        {
            "property": k,
            "quick_cmd": f"bash bin/check {k} quick",
            "thorough_cmd": f"bash bin/check {k} thorough",
            "evidence_file": f"evidence/{k}.json",
            "technique": P[k]["technique"],
            "level": P[k]["level"],
            "level_note": P[k]["note"],
        }
        for k in sorted(P) if k in claimed
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
    "notes": "One seed = one run: bin/check runs a seeded batch against /repo's working tree, "
             "bin/replay re-executes a minimised replay file. No hooks in /repo are needed.",
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
missing = claimed - set(P)
print("claimed", sorted(claimed & set(P)), "text missing for", sorted(missing))
