#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/checks.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import checks  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 lib/vbuild.py asan",
    "checks": [],
    "not_applicable": [],
    "notes": "See DESIGN.md. Fixed defects and the known finding are in known-findings.jsonl.",
}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        m["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "its check is not built yet")})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": c.get("technique", "runtime monitoring: real code under ASan/UBSan driven by random workloads, online comparison with a reference model"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Holds on the executions explored (counts in the evidence); trusts the reference model, the virtual clock and the sanitizers."),
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
