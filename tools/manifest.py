#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the checks that exist (euv/checks/cNN.py) and their notes."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(HERE, "tools", "techniques.py")).read(), TECH)
T, NA = TECH["T"], TECH["NA"]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(HERE, "euv", "checks", i.lower() + ".py")
    if os.path.exists(f) and i in T and i not in NA:
        t = T[i]
        targets = (" " + t["targets"]) if t.get("targets") else ""
        checks.append({"property": i, "quick_cmd": "bash check.sh %s%s" % (i, targets),
                       "thorough_cmd": "VERIF_TIER=thorough bash check.sh %s%s" % (i, targets),
                       "technique": t["technique"], "level": t.get("level", "exploration"), "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash build/setup.sh",
     "hooks": {"guard": "--cfg euv", "enable": "build/build.sh builds /repo's crate with RUSTFLAGS='--cfg euv'",
               "source_commits": TECH["HOOKS"]}, "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. All checks run the real eu built from /repo's working tree; yaml-rust, absent offline, is "
              "replaced by shims/yaml-rust."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks;", len(na), "not claimed")
