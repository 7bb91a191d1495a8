#!/usr/bin/env python3
"""Mutation testing of the checks: small edits of cdtb's source, run against the checks that reach the edited line.

  python3 tools/mutate.py [-j N] [-n COUNT] [--seed N] [--only FILE[:FUNC]] OUT.jsonl     (not a check; takes long)

Each mutant is a single expression or statement changed in a scratch copy.  Mutants that the repository's tests or a check kill
are counted; the survivors are written with their diff, to be looked at: equivalent, outside the properties, or a gap of the checks.
"""
import argparse, ast, concurrent.futures, glob, json, os, random, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PATH": "/opt/venv/bin:" + os.environ["PATH"]}
COV = "/tmp/mutate-cov.json"

CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}


def mutants(path):
    """Yield (line, function, description, new source)"""
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(n, new):
        a, b = span(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()
    out = []

    def visit(n, func, skip, where=(), outer=(1,)):
        # outer: lines to be covered for what runs on import only
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = func + [n.name]
            outer = list(range(n.lineno, n.end_lineno + 1)) if isinstance(n, ast.ClassDef) else ()
            if n.name in ("__repr__", "create_parser"):
                skip = True
            for d in getattr(n, "decorator_list", ()):
                pass
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "logging"):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.AnnAssign) and n.value is None:
            return

        if isinstance(n, ast.stmt):
            # lines of the statement, or of the head of a compound one; the whole body of a class or module for what runs on import
            where = range(n.lineno, n.body[0].lineno if getattr(n, "body", None) and not isinstance(n, ast.ClassDef) else n.end_lineno + 1)
        if isinstance(n, ast.ClassDef):
            where = range(n.lineno, n.end_lineno + 1)

        def add(desc, new):
            if not skip:
                out.append((n.lineno, ".".join(func), desc, new, outer if outer else list(where)))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            for o in CMP[type(n.ops[0])]:
                add(f"{text(n)} -> {o}", put(n, f"({l} {o} {r})"))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(f"{text(n)} -> {op}", put(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")"))
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                w = " and " if isinstance(n.op, ast.And) else " or "
                add(f"{text(n)} -> without part {i}", put(n, "(" + w.join(f"({text(v)})" for v in rest) + ")"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(f"{text(n)} -> no not", put(n, f"({text(n.operand)})"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr))):
            add(f"{text(n)} -> {BIN[type(n.op)]}", put(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})"))
        elif isinstance(n, ast.Constant) and not isinstance(getattr(n, "parent", None), (ast.JoinedStr, ast.FormattedValue)):
            v = n.value
            if v is True or v is False:
                add(f"{v} -> {not v}", put(n, repr(not v)))
            elif isinstance(v, int):
                add(f"{v} -> {v + 1}", put(n, repr(v + 1)))
            elif isinstance(v, str) and v:
                if len(v) < 60:
                    add(f"{v!r} -> changed", put(n, repr(v[:-1] + ("x" if v[-1] != "x" else "y")) if len(v) > 1 else repr(v + v)))
            elif isinstance(v, bytes) and v:
                add(f"{v!r} -> changed", put(n, repr(v[:-1] + bytes([v[-1] ^ 1]))))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = text(n.test)
            a, b = span(n.test)
            for c in ("True", "False"):
                if isinstance(n, ast.While) and c == "True":
                    continue
                if ":=" not in t:
                    add(f"if {t} -> {c}", (raw[:a] + c.encode() + raw[b:]).decode())
        elif isinstance(n, ast.Break):
            add("break -> continue", put(n, "continue"))
            add("break -> pass", put(n, "pass"))
        elif isinstance(n, ast.Continue):
            add("continue -> break", put(n, "break"))
            add("continue -> pass", put(n, "pass"))
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(f"return {text(n.value)[:60]} -> None", put(n, "return None"))
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and text(n).startswith("logger.")):
                add(f"removed: {text(n)[:80]}", put(n, "pass" if not isinstance(n, ast.Expr) or not isinstance(n.value, (ast.Yield, ast.YieldFrom)) else "if False: yield"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(f"removed: {text(n)[:80]}", put(n, "pass"))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "tuple", "int", "bool", "reversed") and len(n.args) == 1:
                add(f"{text(n)[:60]} -> without {n.func.id}", put(n, f"({text(n.args[0])})"))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "strip", "rstrip", "lstrip", "items", "copy", "upper", "replace"):
                add(f"{text(n)[:60]} -> without {n.func.attr}", put(n, f"({text(n.func.value)})"))
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    rest = [text(x) for x in n.args] + [text(x) for x in n.keywords if x is not k]
                    if not any(isinstance(x, ast.GeneratorExp) for x in n.args):
                        add(f"{text(n)[:60]} -> without {k.arg}", put(n, f"{text(n.func)}({', '.join(rest)})"))
        elif isinstance(n, ast.comprehension):
            pass
        elif isinstance(n, ast.Slice):
            pass
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    a, b = span(c)
                    if ":=" not in text(c) and not skip:
                        out.append((c.lineno, ".".join(func), f"comprehension if {text(c)[:60]} -> True", (raw[:a] + b"True" + raw[b:]).decode(), list(where)))
        if isinstance(n, ast.ExceptHandler) and n.type is not None and not skip:
            a, b = span(n.type)
            out.append((n.lineno, ".".join(func), f"except {text(n.type)} -> nothing", (raw[:a] + b"ZeroDivisionError" + raw[b:]).decode(), [n.lineno]))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.arg, ast.AnnAssign)) and c in (getattr(n, "returns", None), getattr(n, "annotation", None)):
                continue
            c.parent = n
            if isinstance(c, ast.JoinedStr):
                for v in c.values:
                    v.parent = c
                    if isinstance(v, ast.FormattedValue):
                        continue
                continue
            visit(c, func, skip, where, outer)
    visit(tree, [], False)
    for line, func, desc, new, where in out:
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        yield line, func, desc, new, where


def coverage():
    """{check: set of (file, line)}"""
    if os.path.exists(COV):
        return {k: {tuple(x) for x in v} for k, v in json.load(open(COV)).items()}
    res = {}
    for p in sorted(glob.glob(HERE + "/checks/c[0-9]*.py")):
        pid = os.path.basename(p)[:-3].upper()
        d = tempfile.mkdtemp(prefix="vpcov-")
        os.chmod(d, 0o777)
        subprocess.run([sys.executable, HERE + "/run.py", pid], env={**ENV, "VP_COV": d}, check=True, stdout=subprocess.DEVNULL)
        lines = set()
        for q in glob.glob(d + "/*.json"):
            lines |= {tuple(x) for x in json.load(open(q))[0]}
        shutil.rmtree(d)
        res[pid] = sorted(lines)
        print(pid, len(lines), file=sys.stderr, flush=True)
    json.dump(res, open(COV, "w"))
    return {k: {tuple(x) for x in v} for k, v in res.items()}


def run(job):
    name, line, func, desc, new, pids = job
    d = tempfile.mkdtemp(prefix="vpmut-", dir="/dev/shm")
    os.chmod(d, 0o755)
    try:
        copy = d + "/repo"
        shutil.copytree(REPO, copy, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", ".pytest_cache"))
        with open(f"{copy}/cdtb/{name}", "w") as f:
            f.write(new)
        r = dict(file=name, line=line, func=func, desc=desc, tried=[])
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=copy, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
            if t.returncode:
                return dict(r, killed="tests")
        except subprocess.TimeoutExpired:
            return dict(r, killed="tests")
        for pid in pids:
            p = subprocess.run([sys.executable, HERE + "/run.py", pid], env={**ENV, "VP_REPO": copy, "VP_NOSHRINK": "1"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1000)
            out = p.stdout.decode("utf-8", "replace")
            r["tried"].append(f"{pid}:{p.returncode}")
            if p.returncode == 1:
                return dict(r, killed=pid)
            if p.returncode != 0:
                r.setdefault("errors", []).append(out[-600:])
        return dict(r, killed=None)
    except Exception as e:
        return dict(file=name, line=line, func=func, desc=desc, killed="error", error=repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-n", type=int, default=100000)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--max", type=int, default=5)
    ap.add_argument("--only", action="append")
    ap.add_argument("--count", action="store_true")
    ap.add_argument("out")
    a = ap.parse_args()
    jobs = []
    for p in sorted(glob.glob(REPO + "/cdtb/*.py")):
        name = os.path.basename(p)
        for line, func, desc, new, where in mutants(p):
            if a.only and not any(o == name or (":" in o and o.split(":")[0] == name and func.startswith(o.split(":")[1])) for o in a.only):
                continue
            jobs.append((name, line, func, desc, new, where))
    if a.count:
        import collections
        print(len(jobs), collections.Counter(j[0] for j in jobs))
        return
    cov = coverage()
    done = set()
    if os.path.exists(a.out):
        done = {(d["file"], d["line"], d["desc"]) for d in map(json.loads, open(a.out))}
    random.Random(a.seed).shuffle(jobs)
    todo = []
    for name, line, func, desc, new, where in jobs[:a.n]:
        if (name, line, desc) in done:
            continue
        lines = {(name, l) for l in [line, *where]}
        if name == "data.py":
            pids = ["C18", "C29", "C22", "C30"]
        elif where == [1]:
            # whatever uses the file most
            pids = sorted(cov, key=lambda pid: -sum(1 for f, _ in cov[pid] if f == name))
        else:
            pids = sorted((pid for pid, s in cov.items() if lines & s), key=lambda pid: sum(1 for f, _ in cov[pid] if f != name) - sum(1 for f, _ in cov[pid] if f == name))
        todo.append((name, line, func, desc, new, pids[:a.max]))
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex, open(a.out, "a") as f:
        for r in ex.map(run, todo):
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
