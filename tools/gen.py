#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props_*.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props_c
PROPS = list(props_c.PROPS)
for m in ("props_h", "props_s"):
    if os.path.exists(os.path.join(here, m + ".py")):
        PROPS += __import__(m).PROPS
root = os.path.dirname(here)
built = set(open(os.path.join(here, "claimed.txt")).read().split())
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in built:
        checks.append({"property": p["id"],
                       "quick_cmd": f"bash mc/check.sh {p['id']} quick",
                       "thorough_cmd": f"bash mc/check.sh {p['id']} thorough",
                       "technique": p["tech"], "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "bash mc/setup.sh", "hooks": {"guard": "cfg(hotmeal_mc)", "enable": "mc/.cargo/config.toml passes --cfg hotmeal_mc", "source_commits": ["a525f9a"]}, "checks": checks, "not_applicable": na,
     "notes": "One explicit-state checker per crate (mc/cin, mc/hot), built from /repo's working tree by mc/check.sh; the engine (exhaustive enumeration, worker isolation, watchdog, replay files, evidence) is mc/core. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
