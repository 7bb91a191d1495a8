"""Runs the cases of one check (unprivileged).  Usage: worker.py PID SCRATCH TIER SEED [--replay FILE]"""
import sys, os
REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0:1] = [REPO, HERE]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True

import ast, hashlib, importlib, io, json, math, resource, signal, time, traceback, contextlib, logging, warnings

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import hypothesis.errors
from vp import core

CASE_CPU = 60         # CPU seconds for one case, normally far below a second
SHRINK_WALL = 60      # wall seconds for shrinking


class Job:
    def __init__(self, pid, sub, shard, nshards, tier, seed, scratch, known, out):
        self.pid, self.sub, self.shard, self.nshards = pid, sub, shard, nshards
        self.tier, self.seed, self.scratch, self.known, self.out = tier, seed, scratch, known, out
        self.evals = self.skipped = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.small_samples = []
        self.failure = None
        self.first_failure = None
        self.error = None
        self.known_hits = {}
        self.current = None
        self.checked_literal = 0
        self.t0 = time.time()

    def result(self):
        return dict(sub=self.sub.name, shard=self.shard, evals=self.evals, skipped=self.skipped,
                    nontrivial=sorted(self.nontrivial), labels=self.labels,
                    samples=(self.samples + self.small_samples)[:4],
                    failure=self.failure, error=self.error, known_hits=self.known_hits,
                    wall=time.time() - self.t0)

    def write(self):
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.result(), f)
        os.rename(tmp, self.out)

    def on_cpu(self, *a):
        self.note_failure(self.current, core.Violation(
            f"case did not finish within {CASE_CPU} s of CPU time"), "")
        self.write()
        os._exit(0)

    def note_failure(self, case, e, tb):
        r = repr(case)
        if self.first_failure is None:
            self.first_failure = time.time()
        if self.failure is None or len(r) <= len(self.failure["case"]):
            self.failure = dict(sub=self.sub.name, case=r, key=getattr(e, "key", None),
                                message=f"{type(e).__name__}: {core.short(str(e), 3000)}" if not isinstance(e, core.Violation) else core.short(str(e), 3000),
                                traceback=tb)

    def run_one(self, case):
        if self.first_failure is not None and time.time() - self.first_failure > SHRINK_WALL:
            self.write()
            os._exit(0)
        self.current = case
        if self.checked_literal < 20:
            self.checked_literal += 1
            try:
                if ast.literal_eval(repr(case)) != case:
                    raise core.HarnessError(f"case is not plain data: {core.short(case)}")
            except (ValueError, SyntaxError) as e:
                raise core.HarnessError(f"case is not plain data: {e}: {core.short(case)}")
        ctx = core.Ctx(self.scratch)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(FakeErr()):
                self.sub.check(case, ctx)
        except core.Skip:
            self.skipped += 1
            return
        except core.HarnessError:
            raise
        except hypothesis.errors.HypothesisException as e:
            raise core.HarnessError(f"hypothesis error inside a check: {e!r}")
        except BaseException as e:
            key = getattr(e, "key", None)
            if key is not None and key in self.known:
                self.known_hits[key] = self.known_hits.get(key, 0) + 1
                return
            self.evals += 1
            tb = traceback.format_exc()
            self.note_failure(case, e, core.short(tb, 6000) if len(tb) < 6000 else tb[-6000:])
            raise core.Violation(str(e), key) from None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            ctx.close()
        self.evals += ctx.count
        for l in ctx.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.is_nontrivial:
            r = repr(case)
            h = hashlib.blake2b(r.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(r) < 700 and len(self.small_samples) < 3 and self.evals > 10:
                    self.small_samples.append(r)
                elif len(self.samples) < 1 and self.evals > 20:
                    self.samples.append(core.short(r, 900))

    def run(self):
        signal.signal(signal.SIGPROF, self.on_cpu)
        sub = self.sub
        try:
            if self.shard == 0:
                for case in sub.examples:
                    self.run_one(case)
            if sub.enum is not None:
                for i, case in enumerate(sub.enum(self.tier)):
                    if i % self.nshards == self.shard:
                        self.run_one(case)
            else:
                total = sub.quick if self.tier == "quick" else sub.thorough
                n = math.ceil(total / self.nshards)

                @hypothesis.seed(self.seed * 7919 + self.shard * 104729 + 13)
                @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                          phases=(Phase.generate,) if os.environ.get("VP_NOSHRINK") else (Phase.generate, Phase.shrink), report_multiple_bugs=False,
                          suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                 HealthCheck.large_base_example])
                @given(sub.strategy())
                def test(case):
                    self.run_one(case)
                test()
        except core.Violation:
            pass
        except core.HarnessError as e:
            self.error = f"harness error: {e}"
        except BaseException as e:
            if self.failure is None:
                self.error = "".join(traceback.format_exception(e))[-4000:]
        self.write()


def record_lines():
    """Record the lines and branches of cdtb that are run (VP_COV: directory for the results, see tools/coverage.py)"""
    mon = sys.monitoring
    base = os.path.join(os.path.realpath(REPO), "cdtb") + os.sep
    lines, branches = set(), set()
    mon.use_tool_id(mon.COVERAGE_ID, "vp")

    def on_line(code, line):
        name = os.path.realpath(code.co_filename)
        if name.startswith(base):
            lines.add((name[len(base):], line))
        return mon.DISABLE

    seen = {}

    def on_branch(code, offset, dest):
        name = os.path.realpath(code.co_filename)
        if not name.startswith(base):
            return mon.DISABLE
        known = seen.setdefault((code, offset), set())
        known.add(dest)
        branches.add((name[len(base):], code.co_qualname, offset, dest))
        return mon.DISABLE if len(known) == 2 else None
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.register_callback(mon.COVERAGE_ID, mon.events.BRANCH, on_branch)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE | mon.events.BRANCH)
    return lines, branches


class FakeErr(io.StringIO):
    def fileno(self):
        return 2


def load(pid):
    mod = importlib.import_module(f"checks.{pid.lower()}")
    import cdtb
    if os.path.realpath(os.path.dirname(cdtb.__file__)) != os.path.realpath(os.path.join(REPO, "cdtb")):
        raise core.HarnessError(f"wrong cdtb imported: {cdtb.__file__}")
    return mod


def main():
    pid, scratch, tier, seed = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    if os.getuid() == 0:
        raise SystemExit("worker must not run as root")
    os.chdir(scratch)
    work = os.path.join(scratch, "w")
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.environ["CDTB_HASHES_DIR"], exist_ok=True)
    cov = record_lines() if os.environ.get("VP_COV") else None
    mod = load(pid)
    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = {k["key"] for k in json.load(f)["findings"] if k["property"] == pid}

    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            r = json.load(f)
        sub = next(s for s in mod.SUBS if s.name == r["sub"])
        job = Job(pid, sub, 0, 1, tier, seed, work, set(), os.path.join(scratch, "job-0.json"))
        signal.signal(signal.SIGPROF, job.on_cpu)
        try:
            job.run_one(ast.literal_eval(r["case"]))
        except core.Violation:
            pass
        except core.HarnessError as e:
            job.error = str(e)
        job.write()
        return

    ncpu = min(8, os.cpu_count() or 1)
    jobs = []
    only = os.environ.get("VP_SUB")
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        shards = sub.shards or (8 if tier == "thorough" else 2)
        for shard in range(shards):
            out = os.path.join(scratch, f"job-{len(jobs)}.json")
            w = os.path.join(work, f"j{len(jobs)}")
            os.makedirs(w)
            jobs.append(Job(pid, sub, shard, shards, tier, seed, w, known, out))
    running = {}
    pending = list(jobs)
    stop = False
    while (pending and not stop) or running:
        while pending and not stop and len(running) < ncpu:
            job = pending.pop(0)
            child = os.fork()
            if child == 0:
                try:
                    os.environ["TMPDIR"] = job.scratch
                    import tempfile
                    tempfile.tempdir = job.scratch
                    os.chdir(job.scratch)
                    h = os.path.join(job.scratch, "hashes")
                    job.run()
                    if cov:
                        with open(os.path.join(os.environ["VP_COV"], f"{pid}-{job.sub.name}-{job.shard}.json"), "w") as f:
                            json.dump([sorted(x) for x in cov], f)
                except BaseException as e:
                    job.error = "".join(traceback.format_exception(e))[-3000:]
                    job.write()
                finally:
                    os._exit(0)
            running[child] = job
        child, status = os.wait()
        job = running.pop(child, None)
        if job is None:
            continue
        try:
            with open(job.out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = job.result()
            r["error"] = f"job died (status {status})"
            with open(job.out, "w") as f:
                json.dump(r, f)
        if r["failure"] or r["error"]:
            if r["failure"] and not stop:
                for c in running:
                    try:
                        os.kill(c, signal.SIGKILL)
                    except OSError:
                        pass
            stop = True
    with open(os.path.join(scratch, "done.json"), "w") as f:
        json.dump({"jobs": [j.out for j in jobs if os.path.exists(j.out)],
                   "rules": {s.name: s.rule for s in mod.SUBS},
                   "exhaustive": all(s.enum is not None for s in mod.SUBS),
                   "assumptions": getattr(mod, "ASSUMPTIONS", [])}, f)


main()
