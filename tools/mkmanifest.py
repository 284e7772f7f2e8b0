#!/usr/bin/env python3
"""Write MANIFEST.json: every property with a check in checks/ is claimed, the others are listed with a reason."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
RULES = "TLA+ model of derivation attempts checked with TLC; every attempt replayed into the real rule checkers"
NOTE = ("TLC enumerates the attempts within the bounds in the evidence file and classifies them by the spec's own semantics "
        "(finite models); a refuted attempt accepted by any rule, or a documented instance refused, is a violation. "
        "Trusts the spec's semantics and the harness; nothing is claimed beyond the bounds.")
T = json.load(open(os.path.join(ROOT, "tools", "technique.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
        t, n = T.get(i, [RULES, NOTE])
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="cargo feature verif-hooks of crate carcara", enable="harness/Cargo.toml depends on carcara with features = [\"verif-hooks\"]", source_commits=["f13e981"]), checks=checks, not_applicable=na,
               notes="TLA+ specifications in specs/, replayed into the code by harness/ (library calls) and the carcara executable"),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
