"""writes DESIGN.md: the text of design_head.md with tables generated from the sources"""
import ast, glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
info = json.load(open(os.path.join(V, "specs", "info.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]


def decorated(path, what):
    if not os.path.exists(path): return []
    out = []
    for st in ast.parse(open(path, encoding="utf-8").read()).body:
        if isinstance(st, ast.FunctionDef):
            for d in st.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == what: out.append((st.name, d))
    return out


contracts = []
for name, d in decorated(os.path.join(V, "specs", "contracts.py"), "contract"):
    contracts.append((name, ast.literal_eval(d.args[0]), next(ast.literal_eval(k.value) for k in d.keywords if k.arg == "props")))
rows = []
for p in props:
    i, pid = info[p["id"]], p["id"]
    lem = [n for n, d in decorated(os.path.join(V, "specs", pid.lower() + ".py"), "lemma")]
    chk = [n for n, d in decorated(os.path.join(V, "specs", pid.lower() + "_rt.py"), "check")]
    con = ["`%s`" % q for n, q, ps in contracts if pid in ps]
    rows.append("### %s %s\n" % (pid, p["title"]))
    rows.append("* level: %s. %s" % (i["level"], i["note"]))
    if lem: rows.append("* lemmas (obligations from the real code, all inputs): " + ", ".join("`%s`" % x for x in lem))
    if con: rows.append("* function contracts (proved, used in place of the bodies): " + ", ".join(con))
    rows.append("* run-time contracts (bounded; oracle is the specification in `specs/%s_rt.py`, independent of the code): %s" % (pid.lower(), ", ".join("`%s`" % x for x in chk)))
    if i.get("assumptions"): rows.append("* assumed: " + "; ".join(i["assumptions"]))
    if i.get("design"): rows.append("* " + i["design"])
    rows.append("")
known = json.load(open(os.path.join(V, "known_findings.json")))
fixes = {}
for k in known:
    if k["status"] == "fixed": fixes.setdefault((k["commit"], k["what"]), []).append(k["property"])
ft = ["* %s `%s`: %s" % (", ".join(v), c, w) for (c, w), v in fixes.items()]
bt = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "specs", "caught.json"))) if os.path.exists(os.path.join(V, "specs", "caught.json")) else {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d, b = json.load(open(m)), os.path.basename(os.path.dirname(m))
    bt.append("| %s | %s | %s | %s | %s |" % (b, d["property"], d["needs"], d["what_it_breaks"], caught.get(b, "bin/check " + d["property"])))
s = open(os.path.join(V, "design_head.md")).read()
s = s.replace("PROPTABLE", "\n".join(rows)).replace("FIXTABLE", "\n".join(ft)).replace("BUGTABLE", "\n".join(bt))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
