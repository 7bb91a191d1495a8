#!/usr/bin/env python3
"""Run one check.

  python3 run.py C01 [--thorough]     exit 0: held; 1: VIOLATION; 2: the check itself failed
  python3 run.py --replay FILE        re-run one saved failing case, without the generator
  python3 run.py --setup              check that the tools are there

This part runs as the calling user; it never imports the code under test.  The cases run in
vp/worker.py, as an unprivileged user inside a scratch directory removed at the end, so that whatever
the code under test does to files stays there.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
UID = 61234


def spawn(args, scratch, timeout):
    env = {
        "PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": scratch, "TMPDIR": scratch, "LANG": "C.UTF-8",
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent",
        "CDTB_HASHES_DIR": os.path.join(scratch, "hashes"),
        "VP_REPO": os.environ.get("VP_REPO", "/repo"),
        "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(scratch, "hyp"),
    }
    for k in ("VP_SUB", "VP_COV", "VP_NOSHRINK"):
        if k in os.environ:
            env[k] = os.environ[k]
    kw = {}
    if os.getuid() == 0:
        kw = dict(user=UID, group=UID, extra_groups=[])

    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 33))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.umask(0o022)
    p = subprocess.Popen([PY, "-B", "-s", os.path.join(HERE, "vp", "worker.py"), *args], cwd=scratch, env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, preexec_fn=limits, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, out = "timeout", b""
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    return rc, out.decode("utf-8", "replace")


def make_scratch():
    base = "/dev/shm"
    try:
        st = os.statvfs(base)
        if not os.access(base, os.W_OK) or st.f_bavail * st.f_frsize < (1 << 30):
            base = None
    except OSError:
        base = None
    d = tempfile.mkdtemp(prefix="vp-", dir=base)
    os.chmod(d, 0o755)
    if os.getuid() == 0:
        os.chown(d, UID, UID)
    return d


def fail(msg):
    print(f"CHECK ERROR: {msg}")
    return 2


def run_check(pid, tier, seed):
    t0 = time.time()
    scratch = make_scratch()
    try:
        rc, out = spawn([pid, scratch, tier, str(seed)], scratch, 860 if tier == "quick" else 6 * 3600)
        try:
            with open(os.path.join(scratch, "done.json")) as f:
                done = json.load(f)
            results = []
            for p in done["jobs"]:
                with open(p) as f:
                    results.append(json.load(f))
        except (OSError, ValueError) as e:
            return fail(f"{pid}: worker ended with {rc}, no result ({e})\n{out[-3000:]}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    subs = {}
    nontrivial = set()
    samples = []
    known_hits = {}
    for r in results:
        s = subs.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": set(), "skipped": 0, "labels": {}, "wall_s": 0})
        s["evaluations"] += r["evals"]
        s["skipped"] += r["skipped"]
        s["distinct_nontrivial"] |= set(r["nontrivial"])
        s["wall_s"] = round(max(s["wall_s"], r["wall"]), 2)
        for k, v in r["labels"].items():
            s["labels"][k] = s["labels"].get(k, 0) + v
        nontrivial |= {r["sub"] + h for h in r["nontrivial"]}
        if r["shard"] == 0:
            samples += [{"sub": r["sub"], "case": c} for c in r["samples"][:2]]
        for k, v in r["known_hits"].items():
            known_hits[k] = known_hits.get(k, 0) + v
    for s in subs.values():
        s["distinct_nontrivial"] = len(s["distinct_nontrivial"])
        s["labels"] = dict(sorted(s["labels"].items()))
    failures = [r["failure"] for r in results if r["failure"]]
    errors = [r["error"] for r in results if r["error"]]

    with open(os.path.join(HERE, "known_findings.json")) as f:
        listed = [k for k in json.load(f)["findings"] if k["property"] == pid]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": " | ".join(f"{n}: {r}" for n, r in done["rules"].items()),
            "samples": samples[:12],
            "exhaustive": bool(done["exhaustive"]),
            "subs": subs,
            "known_findings_hit": known_hits,
        },
        "assumptions": done["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for k in listed:
        print(f"KNOWN-FINDING: property={pid} {k['what']} (hit {known_hits.get(k['key'], 0)} times)")
    if failures:
        fl = min(failures, key=lambda x: len(x["case"]))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        h = hashlib.sha1((fl["sub"] + fl["case"]).encode("utf-8", "surrogatepass")).hexdigest()[:10]
        path = os.path.join(HERE, "replays", f"{pid}-{fl['sub']}-{h}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, **fl), f, indent=1)
        print(f"{pid}/{fl['sub']}: {fl['message']}")
        print(f"  case: {fl['case'][:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        return fail(f"{pid}: " + "\n".join(errors)[:4000])
    missing = [n for n in done["rules"] if n not in subs]
    if (missing or rc != 0) and "VP_SUB" not in os.environ:
        return fail(f"{pid}: worker ended with {rc}, sub-checks without result: {missing}\n{out[-2000:]}")
    c = evidence["coverage"]
    print(f"{pid}: held on {c['evaluations']} cases ({c['distinct_nontrivial']} distinct non-trivial), "
          f"{evidence['wall_s']} s, seed {seed}, {tier}")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    scratch = make_scratch()
    try:
        dst = os.path.join(scratch, "replay.json")
        shutil.copy(path, dst)
        os.chmod(dst, 0o644)
        rc, out = spawn([r["property"], scratch, "quick", "1", "--replay", dst], scratch, 800)
        try:
            with open(os.path.join(scratch, "job-0.json")) as f:
                res = json.load(f)
        except OSError:
            return fail(f"replay ended with {rc}\n{out[-3000:]}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if res["failure"]:
        print(res["failure"]["traceback"])
        print(f"{r['property']}/{r['sub']}: {res['failure']['message']}")
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    if res["error"]:
        return fail(res["error"])
    print("replay: the property held on this case")
    return 0


def main(argv):
    if "--setup" in argv:
        r = subprocess.run([PY, "-B", "-c", "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis, PIL, pyzstd, xxhash, ujson; print('ok', hypothesis.__version__)"])
        return r.returncode
    if "--replay" in argv:
        return replay(argv[argv.index("--replay") + 1])
    pids = [a for a in argv if re.match(r"^[A-Z]\d+$", a)]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if not pids:
        print(__doc__)
        return 2
    return max(run_check(p, tier, seed) for p in pids)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
