#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_text.py, tools/props.py, the checks, known_findings.json and the last plant.py run."""
import ast, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
import design_text as T

known = json.load(open(os.path.join(root, "known_findings.json")))
try:
    results = json.load(open(os.path.join(here, "plant_results.json")))
except OSError:
    results = {}
out = [T.HEAD.strip(), ""]


def check_info(pid):
    p = os.path.join(root, "checks", pid.lower() + ".py")
    if not os.path.exists(p):
        return None, [], []
    tree = ast.parse(open(p).read())
    doc, ass, subs = ast.get_docstring(tree), [], []
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "SUBS":
            for c in n.value.elts:
                kw = {k.arg: k.value for k in c.keywords}
                pos = c.args
                const = lambda e: e.value if isinstance(e, ast.Constant) else None
                subs.append((const(pos[0]), const(pos[3]) if len(pos) > 3 else None, const(pos[4]) if len(pos) > 4 else None,
                             const(pos[5]) if len(pos) > 5 else None, "enum" in kw))
    return doc, ass, subs


out.append("## Per property\n")
for p in P:
    pid = p["id"]
    doc, ass, subs = check_info(pid)
    out.append(f"### {pid} {p['title']}\n")
    d = T.DETAIL.get(pid, {})
    out.append(f"*Quantified over:* {p['text']}.")
    out.append(f"*Why the tests cannot settle it:* {p['why']}")
    if subs or doc:
        out.append(f"*Decided by:* {p['technique']}. {p['note']}")
    if d.get("how"):
        out.append(d["how"].strip())
    for name, q, t, rule, enum in subs:
        out.append(f"- sub-check `{name}`: " + ("small-scope enumeration; " if enum else "") + f"{q} cases quick, {t} thorough; non-trivial when {rule}" if q else f"- sub-check `{name}`; non-trivial when {rule}")
    for a in ass:
        out.append(f"- assumes: {a}")
    if d.get("limits"):
        out.append(f"- limits: {d['limits'].strip()}")
    if d.get("false"):
        out.append(f"- false alarms corrected while building: {d['false'].strip()}")
    fx = [f for f in known["fixed"] if f"property={pid} " in f]
    for f in fx:
        m = re.match(r"fixed: property=\S+ (\S+) (.*)", f)
        out.append(f"- genuine defect repaired ({m.group(1)}): {m.group(2)}")
    for f in known["findings"]:
        if f["property"] == pid:
            out.append(f"- known finding: {f['what']}")
    bugs = []
    for b in sorted(os.listdir(os.path.join(root, "seeded"))):
        m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
        if m["property"] == pid:
            bugs.append((b, results.get(b)))
    if bugs:
        out.append("- planted bugs: " + ", ".join(f"`{b}` ({ {True: 'caught', False: 'missed'}.get(r, 'not run')})" for b, r in bugs))
    out.append("")
out.append(T.TAIL.strip())
text = "\n".join(out) + "\n"
open(os.path.join(root, "DESIGN.md"), "w").write(text)
