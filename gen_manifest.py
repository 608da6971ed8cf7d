"""writes MANIFEST.json from the list of properties and the specs present"""
import json, os, ast
V = os.path.dirname(os.path.abspath(__file__))
info = json.load(open(os.path.join(V, "specs", "info.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    i = info.get(p, {})
    has = os.path.exists(os.path.join(V, "specs", p.lower() + ".py")) or os.path.exists(os.path.join(V, "specs", p.lower() + "_rt.py"))
    if not has or i.get("na"):
        na.append({"property": p, "reason": i.get("na") or "not built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
                   "technique": i.get("technique", "contract-based deductive verification of the real code (pydv: verification conditions generated from the Python source, discharged by Z3/cvc5) with run-time contract evaluation as bounded stand-in and replay"),
                   "level": i.get("level", "proof"), "level_note": i.get("note", "")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
