#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vf/props.py and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.props import CHECKS, NOT_APPLICABLE  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = ("differential runtime monitor: real IndexBuilderMain/ServerMain under "
        "AddressSanitizer+UBSan, every answer compared with a reference model")
NOTE = ("Seeded random exploration with a fixed number of cases; every "
        "observed execution is judged, executions not produced are not.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        props = [json.loads(x) for x in f if x.strip()]
    ids = [p["id"] for p in props]
    assert len(set(ids)) == len(ids)
    assert sorted(ids) == sorted(list(CHECKS) + list(NOT_APPLICABLE)), \
        set(ids) ^ set(list(CHECKS) + list(NOT_APPLICABLE))
    checks = []
    for i in ids:
        if i not in CHECKS:
            continue
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 vf/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 vf/check.py %s --tier thorough" % i,
            "technique": c.get("technique", TECH),
            "level": c["level"],
            "level_note": c.get("note", NOTE)})
    m = {"version": 1,
         "setup_cmd": "python3 vf/selftest.py",
         "checks": checks,
         "not_applicable": [{"property": k, "reason": v}
                            for k, v in NOT_APPLICABLE.items()],
         "notes": "Each check builds what it needs from /repo's working tree "
                  "into /verif/.build (git-ignored) and works in a scratch "
                  "directory under /tmp that it removes."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
