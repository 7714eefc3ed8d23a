#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and props.py."""
import json
import os

from props import PROPS
from spec import SPEC

D = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "eval": "runtime monitor: long double reference oracle, ASan/UBSan + release builds",
    "knots": "runtime monitor: reference model in lock step, ASan/UBSan + release builds",
    "refine": "runtime monitor: shape-equivalence oracle, ASan/UBSan + release builds",
    "shape": "runtime monitor: reference model oracle, ASan/UBSan + release builds",
    "io": "runtime monitor under sanitizers: round trip, hostile bytes, fault injection",
    "search": "runtime monitor: residual oracle, ASan/UBSan + release builds",
    "state": "runtime monitor over operation histories, sanitizers",
}
TECH_P = {
    "C18": "ASan/UBSan/hardened libc++ under hostile inputs, allocation monitor",
    "C19": "fault injection at every byte of every save and load, exception monitor",
    "C24": "ThreadSanitizer plus result comparison over recorded concurrent calls",
}
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for pid in sorted(SPEC):
        s = SPEC[pid]
        assert len(s["title"]) <= 80, (pid, len(s["title"]))
        f.write(json.dumps(dict(
            id=pid, title=s["title"], statement=s["statement"], quantifier=dict(over=s["over"], text=s["quant"]), why_tests_cant=s["why"],
            anchors=dict(files=s["files"], mechanism=[dict(name=n, where=w) for n, w in s["mech"]], observe_at=s["observe"], hook_needed=None))) + "\n")
checks = []
for pid in sorted(PROPS):
    p, s = PROPS[pid], SPEC[pid]
    builds = ", ".join("%s: %d cases" % kv for kv in p["quick"].items())
    checks.append(dict(
        property=pid, quick_cmd="python3 run.py check %s --tier quick" % pid, thorough_cmd="python3 run.py check %s --tier thorough" % pid,
        evidence_file="evidence/%s.json" % pid, technique=TECH_P.get(pid, TECH[p["group"]]), level=p.get("level", "exploration"),
        level_note="Held on the executions produced (quick: %s), not a proof. Oracle: %s. Trusts the monitor's own reference code, clang 18, libc++ and Eigen." % (builds, s["note"])))
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=[]), f, indent=1)
    f.write("\n")
print(len(checks), "checks")
