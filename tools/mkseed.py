"""mkseed.py: writes /verif/seeded/<id> from a spec file (python literal dict) on stdin:
id, property, edits [(file, old, new)], needs, breaks, demo (python source)"""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
exec(sys.stdin.read(), ns)
for s in ns["SEEDS"]:
    tmp = tempfile.mkdtemp()
    files = sorted(set(e[0] for e in s["edits"]))
    for side in "ab":
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(tmp, side, f)), exist_ok=True)
            src = open(os.path.join("/repo", f), encoding="utf-8").read()
            if side == "b":
                for ff, old, new in s["edits"]:
                    if ff == f:
                        assert src.count(old) == 1, (s["id"], f, src.count(old), old)
                        src = src.replace(old, new)
            open(os.path.join(tmp, side, f), "w", encoding="utf-8").write(src)
    d = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
    d = subprocess.run(["git", "diff", "--no-index", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout.replace("a/a/", "a/").replace("b/b/", "b/")
    shutil.rmtree(tmp)
    out = os.path.join("/verif/seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(d)
    open(os.path.join(out, "demo.sh"), "w").write("#!/bin/sh\n# fails if the property is broken\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$PWD\" exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    print(s["id"])
