#!/usr/bin/env python3
"""Write MANIFEST.json from lib/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS, BOUNDS
checks = []
for c, p in PROPS.items():
    b = [h for h in p["harnesses"] if h in BOUNDS]
    note = p["how"].strip()
    if b:
        note += " Bounded (not counted as proved): " + "; ".join("%s: %s" % (h, BOUNDS[h]) for h in b) + "."
    note += " Trusted: Kani/CBMC; " + "; ".join(p.get("trusted", ["no replaced callees"])) + "."
    checks.append(dict(
        property=c, quick_cmd="python3 check.py %s" % c, thorough_cmd="python3 check.py %s --tier thorough" % c,
        evidence_file="evidence/%s.json" % c, technique=p.get("technique", "contract-based deductive verification (Kani/CBMC function contracts on the real code)"),
        level=p["level"], level_note=note))
m = dict(version=1, setup_cmd="python3 setup.py",
         hooks=dict(guard="cfg(all(any(kani, dmi_verif), not(dmi_verif_nohooks)))",
                    enable="cargo kani sets cfg(kani); native replays build with RUSTFLAGS='--cfg dmi_verif'",
                    source_commits=["8a3b368", "0ede40b", "c078cdf", "d7b9f37"]),
         checks=checks, not_applicable=[], notes="See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
