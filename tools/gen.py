#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import spec
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for pid, c in list(spec.CHECKS.items()) + list(spec.NOT_APPLICABLE):
        f.write(json.dumps({"id": pid, "title": c["title"], "statement": c["statement"],
                            "quantifier": {"over": c["over"], "text": c["text"]}, "why_tests_cant": c["why"],
                            "anchors": {"files": c.get("files", ["strtk.hpp"]),
                                        "mechanism": [{"name": n, "where": w} for n, w in c["mech"]],
                                        **({"observe_at": c["observe"]} if c.get("observe") else {}), "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: strtk is a sequential header-only library, every property is observed through its public interface", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"], "level_note": c["note"]}
                for p, c in spec.CHECKS.items()],
     "not_applicable": [{"property": p, "reason": c["reason"]} for p, c in spec.NOT_APPLICABLE]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(spec.CHECKS), "checks")

from tools.oracles import ORACLE  # noqa: E402
out = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "## Properties\n\n",
       "Cost is the wall time of the quick tier on 8 cores when this file was generated; thorough deepens the same sections.\n"]
costs = {}
cf_ = os.path.join(HERE, "tools", "costs.json")
if os.path.exists(cf_):
    costs = json.load(open(cf_))
for pid, c in spec.CHECKS.items():
    out.append("\n### %s %s\n\n%s\n\n* **Enumerated:** %s. %s\n* **Oracle:** %s\n* **Beyond the tests:** %s\n* **Level:** %s; %s.%s%s\n" % (
        pid, c["title"], c["statement"], c["text"], c["rule"].replace(spec.EXH, "").strip(), ORACLE[pid], c["why"], c["level"], c["technique"],
        " Assumes: " + "; ".join(c["assumptions"]) + "." if c["assumptions"] else "",
        "\n* **Cost:** " + costs[pid] if pid in costs else ""))
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
