#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py (one place for ids, statements, anchors, notes)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import PROPS, HOOKS
import jsonschema
pl, checks, na = [], [], []
for p in PROPS:
    r = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    if p.get("observe"): r["anchors"]["observe_at"] = [p["observe"]] if isinstance(p["observe"], str) else p["observe"]
    pl.append(r)
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p.get("technique", "symbolic execution of the compiled LLVM IR of the real code, assertions decided by Z3 (bit-vectors)"),
            "level": p.get("level", "model_checking"), "level_note": p["note"]})
for r in pl:
    for f in r["anchors"]["files"]: assert os.path.exists("/repo/" + f), f
open(V + "/properties.jsonl", "w").write("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in pl))
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": HOOKS,
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
S = "/root/.vp/"
try:
    ps = json.load(open(S + "PROPERTIES.schema.json"))
    for r in pl: jsonschema.validate(r, ps)
    jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
    print("valid:", len(pl), "properties,", len(checks), "checks,", len(na), "n/a")
except FileNotFoundError:
    pass
