#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and vlib/props.json from one description (vlib/propdefs.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from propdefs import PROPS, NOT_APPLICABLE, HOOKS

TECH = "contract-based deductive verification (Verus) of the extracted real functions, with a bounded search on the real crates as replay"
out, checks, conf, na = [], [], {}, []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}
    out.append(q)
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        continue
    conf[p["id"]] = {k: p[k] for k in ("specs", "level", "replay", "assumes") if k in p}
    checks.append({"property": p["id"], "quick_cmd": f"python3 vlib/check.py {p['id']} --tier quick",
                   "thorough_cmd": f"python3 vlib/check.py {p['id']} --tier thorough",
                   "technique": p.get("technique", TECH), "level": p["level"], "level_note": p["note"]})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in out))
m = {"version": 1, "setup_cmd": "python3 vlib/check.py --setup", "checks": checks, "not_applicable": na}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump(conf, open(os.path.join(HERE, "props.json"), "w"), indent=1)
try:
    import jsonschema
    for x in out:
        jsonschema.validate(x, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(out), "properties,", len(checks), "checks,", len(na), "not applicable")
