"""Writes MANIFEST.json from the check modules present (run: python3 tools/mkmanifest.py)."""
import json, os, re, ast, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    fn = os.path.join(V, "checks", p["id"].lower() + ".py")
    if os.path.exists(fn):
        ns = {}
        for node in ast.parse(open(fn).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("LEVEL", "TECHNIQUE", "LEVEL_NOTE"):
                ns[node.targets[0].id] = ast.literal_eval(node.value)
        cmd = "./check.sh %s" % p["id"].lower()
        checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd="env VERIF_TIER=thorough " + cmd, technique=ns["TECHNIQUE"],
                           level=ns["LEVEL"], level_note=ns["LEVEL_NOTE"]))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "model checking applies, but no check has been built for it yet; nothing is claimed")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Every check enumerates bounded spaces of programs, histories, inputs or schedules on the real code in /repo and compares each execution with an independent reference; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
