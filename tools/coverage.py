#!/usr/bin/env python3
"""Lines and branches of cdtb never run by the checks: python3 tools/coverage.py [Cnn...] (quick tier; not a check)"""
import dis, glob, json, os, shutil, subprocess, sys, tempfile, types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
pids = sys.argv[1:] or [f"C{n:02}" for n in range(1, 100) if os.path.exists(f"{HERE}/checks/c{n:02}.py")]
out = tempfile.mkdtemp(prefix="vpcov-")
os.chmod(out, 0o777)
for pid in pids:
    subprocess.run([sys.executable, f"{HERE}/run.py", pid], env={**os.environ, "VP_COV": out}, check=True)
lines, branches = set(), set()
for p in glob.glob(out + "/*.json"):
    a, b = json.load(open(p))
    lines |= {tuple(x) for x in a}
    branches |= {tuple(x) for x in b}
shutil.rmtree(out)


def codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from codes(c)


for p in sorted(glob.glob(REPO + "/cdtb/*.py")):
    name = os.path.basename(p)
    text = open(p).read().split("\n")
    want = set()
    half = {}
    for c in codes(compile("\n".join(text), p, "exec")):
        want |= {l for _, _, l in c.co_lines() if l}
        start = {}
        for f, q, o, d in branches:
            if f == name and q == c.co_qualname:
                start.setdefault(o, set()).add(d)
        for i in dis.get_instructions(c):
            if "POP_JUMP" in i.opname or i.opname in ("FOR_ITER",):
                if len(start.get(i.offset, ())) == 1 and i.positions.lineno:
                    half.setdefault(i.positions.lineno, []).append(i.opname)
    missing = want - {l for f, l in lines if f == name}
    print(f"== {name}: {len(missing)} of {len(want)} lines, {len(half)} lines with one-sided branches")
    for l in sorted(missing | set(half)):
        print(f"{'!' if l in missing else '~'} {l:4} {text[l - 1]}")
