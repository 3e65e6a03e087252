#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from statements.py and props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as P  # noqa: E402
import statements as S  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {
    "C27": "needs a CUDA compiler and a device, and the sandbox has neither: "
           "no execution of the device code can be observed here",
}
ids = [s["id"] for s in S.STATEMENTS]
assert len(set(ids)) == len(ids)
assert set(ids) == set(P.PROPS) | set(NOT_APPLICABLE), \
    set(ids) ^ (set(P.PROPS) | set(NOT_APPLICABLE))
S.STATEMENTS.sort(key=lambda s: s["id"])
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for s in S.STATEMENTS:
        assert len(s["title"]) <= 80, s["title"]
        f.write(json.dumps(s) + "\n")
checks = []
for s in S.STATEMENTS:
    pid = s["id"]
    if pid in P.PROPS:
        p = P.PROPS[pid]
        checks.append({
            "property": pid, "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --tier thorough",
            "technique": p["technique"], "level": p["level"],
            "level_note": p["note"]})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
               "checks": checks,
               "not_applicable": [{"property": k, "reason": v}
                                  for k, v in NOT_APPLICABLE.items()],
               "notes": "No hooks in /repo: the monitors sit in the "
               "evaluators, vectors and files which the harnesses provide."},
              f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(S.STATEMENTS), "properties")
