"""Writes DESIGN.md: tools/design_head.md + one section per property (from properties.jsonl, the check modules,
known_findings.json and seeded/) + tools/design_tail.md  (run: python3 tools/mkdesign.py)."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *a: open(os.path.join(V, *a)).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
known = json.loads(R("known_findings.json"))
notes = {}
cur = None
for line in R("tools", "design_notes.md").splitlines():
    m = re.match(r"## (P\d\d)", line)
    if m:
        cur = notes.setdefault(m.group(1), [])
    elif cur is not None:
        cur.append(line)


def text(node):
    """the bounds string of a Space: constants as they are, %-formats with their literal tuple left out"""
    if isinstance(node, ast.Constant):
        return str(node.value)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod):
        fmt = text(node.left)
        vals = node.right.elts if isinstance(node.right, ast.Tuple) else [node.right]
        for v in vals:
            if isinstance(v, ast.IfExp):
                v = ast.unparse(v.body) + "/" + ast.unparse(v.orelse) if not isinstance(v.body, ast.Tuple) else "n"
            else:
                v = ast.unparse(v)
            fmt = re.sub(r"%[ds]", lambda m: "`%s`" % v, fmt, count=1)
        return fmt
    if isinstance(node, ast.BinOp):
        return text(node.left) + text(node.right)
    return "`%s`" % ast.unparse(node)


def spaces(fn):
    out = []
    for node in ast.walk(ast.parse(open(fn).read())):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "Space" and isinstance(node.args[0], ast.Constant):
            b = next((k.value for k in node.keywords if k.arg == "bounds"), node.args[3] if len(node.args) > 3 else None)
            out.append((node.lineno, node.args[0].value, text(b) if b is not None else ""))
    return [(n, b) for _, n, b in sorted(out)]


seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
o = [R("tools", "design_head.md").rstrip(), ""]
for p in props:
    i = p["id"]
    fn = os.path.join(V, "checks", i.lower() + ".py")
    o += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    if not os.path.exists(fn):
        o += ["Not claimed.", ""]
        continue
    ns = {}
    for node in ast.parse(open(fn).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("LEVEL", "TECHNIQUE", "LEVEL_NOTE"):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    o += ["*Decided by* %s (`%s`). %s" % (ns["TECHNIQUE"], ns["LEVEL"], ns["LEVEL_NOTE"]), "",
          "*Beyond the tests:* %s." % p["why_tests_cant"].rstrip("."), "", "Spaces (all cases of each are executed):", ""]
    o += ["* `%s`: %s" % s for s in spaces(fn)]
    o += [""]
    if i in notes and "".join(notes[i]).strip():
        o += [l for l in notes[i]]
        o += [""] if o[-1] else []
    fx = [re.match(r"fixed: property=(P\d\d) (\S+) (.*)", f, re.S).groups() for f in known["fixed"] if f.startswith("fixed: property=%s " % i)]
    kf = [f for f in known["findings"] if f["property"] == i]
    if fx:
        o += ["Defects found and repaired: %d (listed in `known_findings.json`)." % len(fx), ""]
    for f in kf:
        o += ["Known finding (%s, case `%s`): %s" % (f["space"], json.dumps(f["case"]), f["what"]), ""]
    if i in seeds:
        o += ["Planted bugs caught: " + "; ".join("`%s` (%s)" % (n, d["what_it_breaks"].strip().rstrip(".")) for n, d in seeds[i]) + ".", ""]
o += [R("tools", "design_tail.md").rstrip(), ""]
text_ = "\n".join(o)
text_ = re.sub(r"\n{3,}", "\n\n", text_)
open(os.path.join(V, "DESIGN.md"), "w").write(text_)
print(len(text_.splitlines()), "lines")
