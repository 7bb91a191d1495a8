#!/usr/bin/env python3
"""Plant bugs: build seeded/<id>/ from a batch file, confirm each one in a scratch copy, run its check on it.

  python3 tools/plant.py BATCH.py [ID...]     (re)create the bugs of a batch: BUGS = [dict(id, property, needs,
                                              what_it_breaks, edits=[(file, old, new)], demo=python source)]
  python3 tools/plant.py --check [ID...]      confirm and run the checks for the bugs already in seeded/
Options: --seed N (VERIF_SEED of the check), --no-check (only confirm the bug), -j N
"""
import concurrent.futures, json, os, re, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
BASE = "7d55f06"
DEMO_SH = """#!/bin/bash
# run with cwd /repo
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python -B "$d/demo.py"
"""
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent",
       "PATH": "/opt/venv/bin:" + os.environ["PATH"]}


def sh(cmd, cwd, env=ENV, timeout=1000):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def create(bug):
    d = os.path.join(SEEDED, bug["id"])
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        for name, old, new in bug["edits"]:
            p = os.path.join(copy, name)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{bug['id']}: {s.count(old)} matches in {name} for {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], copy)
        os.makedirs(d, exist_ok=True)
        for name, text in (("patch.diff", diff), ("demo.sh", DEMO_SH), ("demo.py", bug["demo"].lstrip("\n")),
                           ("meta.json", json.dumps({"property": bug["property"], "needs": bug["needs"],
                                                     "what_it_breaks": bug["what_it_breaks"]}, indent=1) + "\n")):
            open(os.path.join(d, name), "w").write(text)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
    finally:
        shutil.rmtree(tmp)


def confirm(bid, seed, check):
    d = os.path.join(SEEDED, bid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    os.chmod(tmp, 0o755)
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        os.remove(os.path.join(demo, "patch.diff"))
        os.remove(os.path.join(demo, "meta.json"))
        problems = []
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], copy)
        if rc != 0:
            problems.append(f"demo fails without the patch: {out[-600:]}")
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if rc != 0:
            return bid, prop, [f"patch does not apply: {out}"], None, ""
        # changed lines must be of the original repository
        names = set(re.findall(r"^--- a/(.*)$", open(os.path.join(d, "patch.diff")).read(), re.M))
        for n in names:
            base = set(sh(["git", "show", f"{BASE}:{n}"], copy)[1].splitlines())
            _, diff = sh(["git", "diff", "-U0", n], copy)
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not [l for l in removed if l.strip() and l in base]:
                problems.append(f"{n}: changes no line of the original")
            added = [l for l in removed if l not in base]
            if added:
                problems.append(f"{n}: changes lines of our commits: {added[:3]}")
        rc, out = sh([sys.executable, "-m", "compileall", "-q", "-f", "cdtb"], copy,
                     {**ENV, "PYTHONPYCACHEPREFIX": os.path.join(tmp, "pyc")})
        if rc:
            problems.append("does not compile: " + out[-500:])
        rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], copy)
        if rc or "30 passed" not in out:
            problems.append("tests: " + out[-500:])
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], copy)
        if rc == 0:
            problems.append("demo passes with the patch")
        elif "AssertionError" not in out:
            print("   note:", bid, "demo ends with", out.strip().splitlines()[-1:])
        caught, tail = None, ""
        if check and os.path.exists(os.path.join(HERE, "checks", prop.lower() + ".py")):
            rc, out = sh([sys.executable, os.path.join(HERE, "run.py"), prop], HERE,
                         {**ENV, "VP_REPO": copy, "VERIF_SEED": str(seed), "VERIF_TIER": "quick"})
            caught = rc == 1 and f"VIOLATION property={prop} replay=" in out
            tail = out[-700:] if rc not in (0, 1) else "\n".join(out.splitlines()[:6])[:700]
        return bid, prop, problems, caught, tail
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    seed, check, jobs = 1, True, 3
    if "--seed" in args:
        i = args.index("--seed"); seed = int(args[i + 1]); del args[i:i + 2]
    if "-j" in args:
        i = args.index("-j"); jobs = int(args[i + 1]); del args[i:i + 2]
    if "--no-check" in args:
        args.remove("--no-check"); check = False
    if args and args[0] == "--check":
        ids = args[1:] or sorted(os.listdir(SEEDED))
        ids = [i for a in ids for i in sorted(os.listdir(SEEDED)) if i == a or (a.endswith("*") and i.startswith(a[:-1]))]
    else:
        bugs = runpy.run_path(args[0])["BUGS"]
        ids = []
        for b in bugs:
            if len(args) > 1 and b["id"] not in args[1:]:
                continue
            err = create(b)
            if err:
                print("ERROR", err)
            else:
                ids.append(b["id"])
    rfile = os.path.join(HERE, "tools", "plant_results.json")
    try:
        results = json.load(open(rfile))
    except OSError:
        results = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for bid, prop, problems, caught, tail in ex.map(lambda b: confirm(b, seed, check), ids):
            if caught is not None:
                results[bid] = caught
            state = {True: "caught", False: "MISSED", None: "no check"}[caught]
            print(f"{bid} [{prop}] {'INVALID' if problems else 'ok'} {state}", flush=True)
            for p in problems:
                print("   ", p)
            if not caught or problems or "-v" in sys.argv:
                print("    " + tail.replace("\n", "\n    "))
    results = {k: results[k] for k in sorted(results) if os.path.isdir(os.path.join(SEEDED, k))}
    with open(rfile, "w") as f:
        json.dump(results, f, indent=1)
        print(file=f)


main()
