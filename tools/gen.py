"""Writes properties.jsonl and MANIFEST.json from tools/props.py for the checks that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS  # noqa: E402

PY = "/opt/veriftools/pyvenv/bin/python"
NA = []
checks = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        if not os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            continue
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
        checks.append({
            "property": p["id"],
            "quick_cmd": "%s run_check.py %s quick" % (PY, p["id"]),
            "thorough_cmd": "%s run_check.py %s thorough" % (PY, p["id"]),
            "technique": "symbolic execution of the real Python source + SMT (z3) over all inputs within bounds",
            "level": "other",
            "level_note": "Bounded symbolic verification: /repo's current source is instrumented and executed on symbolic "
            "inputs; z3 decides every assertion for all values within the bounds listed in the evidence; counterexamples "
            "are replayed on the real, uninstrumented code before being reported. Trusted: the instrumentation and library models in "
            "symdust/, z3; zlib is modelled as an invertible codec." + (" " + p["_note"] if p["_note"] else ""),
        })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA,
           "hooks": {"guard": "none (no hooks were needed in /repo)", "enable": "nothing to enable", "source_commits": []},
           "notes": "All checks run from /verif against /repo's working tree; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
