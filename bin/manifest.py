#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py"""
import json
import os
import sys

D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from plan import PLAN  # noqa: E402

NOTE = ("Conformance of the real code (rebuilt from /repo) with the TLA+ specification in /verif/spec, in both directions: {how}. "
        "Exhaustive within the bounds of the models; sampled, with a fixed seed, beyond them. Trusts TLC, the specification's "
        "transcription of RFC 9535, and the harness that encodes calls and outcomes.")


def how(p):
    h = []
    if p.get("models"):
        h.append("TLC explores " + ", ".join(sorted({m["module"] + (f"({m['suite']})" if m.get("suite") else "") for m in p["models"]}))
                 + ", checks their invariants, and every behaviour they emit is replayed into the code")
    if p.get("traces"):
        h.append("histories recorded from the code are validated by TLC against JPTrace")
    return "; ".join(h)


man = {
    "version": 1,
    "setup_cmd": "bin/setup.sh",
    "checks": [
        {
            "property": pid,
            "quick_cmd": f"python3 bin/check.py {pid} --tier quick",
            "thorough_cmd": f"python3 bin/check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "explicit TLA+ specification: TLC model checking" * bool(p.get("models")) + (", " if p.get("models") else "TLA+ specification: ")
            + ("replay of model behaviours, and " if p.get("models") else "") + "validation of recorded traces by TLC",
            "level": "model_checking",
            "level_note": NOTE.format(how=how(p)),
        }
        for pid, p in sorted(PLAN.items())
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API (and serde_json_path_core::spec::integer).",
}
with open(os.path.join(D, "..", "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
