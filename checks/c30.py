"""C30 The export command picks the right patch and predecessor"""
import os
from hypothesis import strategies as st
from vp import patchgen
from vp.cli import run_cli
from vp.core import Sub, eq, expect, short
from cdtb.export import CdragonRawPatchExporter
from cdtb.storage import PatchVersion

ASSUMPTIONS = ["releases are ordered by patch, latest first", "directories of the output are named like patches (X.Y or main) or have no number", "PBE and live exports are in different directories"]


class ExportStorage(patchgen.FakeStorage):
    """Storage whose elements are set by the check; some are available but not stored"""
    storage_type = "vpexport"
    current = []

    @classmethod
    def from_conf_data(cls, conf):
        return cls(conf["path"])

    def patch_elements(self, stored=False):
        for e, is_stored in type(self).current:
            if is_stored or not stored:
                yield e


def vtuple(v):
    return tuple(map(int, v.split(".")))


VERSIONS = ["7.22", "7.24", "8.1", "8.2", "8.9", "8.10", "8.11", "8.24", "9.1", "9.2", "9.9", "9.10", "10.1", "10.2", "14.1", "14.10", "14.24"]
JUNK = ["latest", "tmp", "pbe", "9", "10", "x.y", "9.x", ".hidden", "8-1", "v8.1", "main2", "8.", ".1", "8.1.old", "8..1"]


@st.composite
def storages(draw):
    """[(version, stored, [element names])], latest first, several releases of a patch are possible"""
    if draw(st.integers(0, 7)) == 0:
        versions = ["main"]
    else:
        versions = sorted(draw(st.lists(st.sampled_from(VERSIONS), min_size=0 if draw(st.integers(0, 9)) == 0 else 1, max_size=8, unique=True)), key=vtuple, reverse=True)
    out = []
    for v in versions:
        stored = draw(st.integers(0, 7)) != 0
        for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
            out.append((v, stored, draw(st.sampled_from([["game"], ["client"], ["game", "client"], ["client", "game"]]))))
    return out


def setup(case, ctx):
    root = ctx.tmp()
    ExportStorage.current = [(patchgen.FakeElement(n, PatchVersion(v), []), stored) for v, stored, names in case["storage"] for n in names]
    stored, available = [], []
    for v, is_stored, _ in case["storage"]:
        if v not in available:
            available.append(v)
            if is_stored:
                stored.append(v)
    return root, stored, available


def run(root, case, argv):
    """Run the command, return (exit status or error, [performed exports])"""
    done = []

    def process(self, overwrite=True):
        done.append(dict(output=os.path.normpath(os.path.join(root, self.output)), patch=str(self.patch.version), elements=sorted(e.name for e in self.patch.elements),
                         previous=None if self.prev_patch is None else str(self.prev_patch.version), symlinks=bool(self.create_symlinks), overwrite=bool(overwrite)))
    old, cwd, env = CdragonRawPatchExporter.process, os.getcwd(), {k: os.environ.pop(k, None) for k in ("CDTB_EXPORT", "CDTB_STORAGE")}
    os.chdir(root)
    if case["output"][0] == "env":
        os.environ["CDTB_EXPORT"] = case["output"][1].replace("{root}", root)
    elif case["output"][0] == "both":
        os.environ["CDTB_EXPORT"] = root + "/other"
    if case["output"][0] in ("opt", "both"):
        argv = argv + ["-o", case["output"][1].replace("{root}", root)]
    CdragonRawPatchExporter.process = process
    try:
        try:
            rc = run_cli(["export", "-s", "vpexport:st"] + argv)[0]
        except Exception as e:
            rc = f"{type(e).__name__}: {e}"
    finally:
        CdragonRawPatchExporter.process = old
        os.chdir(cwd)
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    return rc, done


def output_of(root, case):
    name = "export" if case["output"][0] == "default" else case["output"][1].replace("{root}", root)
    return os.path.normpath(os.path.join(root, name))


OUTPUT = st.one_of(st.just(("default", "")), st.tuples(st.sampled_from(["env", "opt", "both"]), st.sampled_from(["out", "a/b", "{root}/abs", "./x/", "export", "8.1"])))


# --- one patch

@st.composite
def one_cases(draw):
    s = draw(storages())
    versions = [v for v, _, _ in s] or ["9.1"]
    return dict(storage=s, output=draw(OUTPUT), patch=draw(st.one_of(st.just("latest"), st.sampled_from(versions), st.sampled_from(versions), st.sampled_from(VERSIONS + ["main", "9.1.1", "9", "9.01"]))),
                previous=draw(st.one_of(st.none(), st.none(), st.just("full"), st.just("none"), st.sampled_from(versions), st.sampled_from(VERSIONS + ["main"]))),
                first=draw(st.sampled_from([None] * 9 + ["9.1"])), symlinks=draw(st.booleans()), lazy=draw(st.booleans()), order=draw(st.booleans()))


def check_one(case, ctx):
    root, stored, available = setup(case, ctx)
    opts = []
    if case["previous"] == "full":
        opts += ["--full"]
    elif case["previous"] is not None:
        opts += ["--previous", case["previous"]]
    if case["symlinks"]:
        opts += ["-L" if case["order"] else "--symlinks"]
    if case["lazy"]:
        opts += ["--lazy"]
    if case["first"]:
        opts += ["--from", case["first"]]
    argv = [case["patch"]] + opts if case["order"] else opts + [case["patch"]]
    rc, done = run(root, case, argv)
    what = f"export {argv} (stored {stored}, available {available})"

    def usage(why, other=False):
        expect(rc == 2 or (other and rc != 0), f"{what}: exit status {rc!r}, expected a usage error: {why}")
        eq(done, [], f"exports of {what}, which is refused: {why}")
        ctx.label("refused")
    if case["first"]:
        return usage("--from with a patch")
    target = (available or [None])[0] if case["patch"] == "latest" else case["patch"] if case["patch"] in available else None
    if target is None:
        return usage("no such patch")
    if case["previous"] in ("full", "none"):
        previous = None
        ctx.label("full")
    elif case["previous"] is not None:
        if case["previous"] not in stored:
            return usage("previous patch not stored")
        previous = case["previous"]
        ctx.label("explicit")
    else:
        older = stored[stored.index(target) + 1:] if target in stored else [v for v in stored if available.index(v) > available.index(target)]
        if target not in stored and rc == 2:
            return usage("not stored")
        if not older:
            return usage("no previous patch")
        previous = older[0]
        ctx.label("guessed")
    if previous is None and case["symlinks"]:
        return usage("symlinks without previous patch", True)
    eq(rc, 0, f"exit status of {what}")
    names = next_names(case, target)
    eq(done, [dict(output=output_of(root, case) + "/" + target, patch=target, elements=names, previous=previous, symlinks=case["symlinks"], overwrite=not case["lazy"])], f"exports of {what}")
    ctx.nontrivial(len(stored) > 2 and previous is not None)


def next_names(case, version):
    return sorted({n for v, _, names in case["storage"] if v == version for n in names})


# --- all exported patches

@st.composite
def all_cases(draw):
    s = draw(storages())
    versions = list(dict.fromkeys(v for v, stored, _ in s if stored or draw(st.integers(0, 5)) == 0))
    dirs = draw(st.lists(st.sampled_from(versions), max_size=6, unique=True)) if versions else []
    if "main" in versions:
        missing = []
    else:
        missing = draw(st.lists(st.sampled_from(VERSIONS), max_size=1)) if draw(st.integers(0, 3)) == 0 else []
    firsts = [v for v in dirs + versions] or ["9.1"]
    return dict(storage=s, output=draw(OUTPUT), dirs=dirs + [m for m in missing if m not in dirs], junk=draw(st.lists(st.sampled_from(JUNK), max_size=4, unique=True)), files=draw(st.lists(st.sampled_from(["8.1", "9.9", "14.24", "note.txt"]), max_size=2, unique=True)),
                first=draw(st.one_of(st.sampled_from(firsts), st.sampled_from(firsts), st.sampled_from([None] + VERSIONS) if "main" not in versions else st.none())), symlinks=draw(st.booleans()), lazy=draw(st.booleans()),
                previous=draw(st.sampled_from([None] * 9 + ["9.1", "full"])), api=draw(st.booleans()), linkdir=draw(st.booleans()))


def check_all(case, ctx):
    root, stored, available = setup(case, ctx)
    out = output_of(root, case)
    os.makedirs(out)
    for d in case["dirs"] + case["junk"]:
        os.makedirs(f"{out}/{d}/game")
    for f in case["files"]:
        if not os.path.exists(f"{out}/{f}"):
            with open(f"{out}/{f}", "w"):
                pass
    if case["linkdir"] and "latest" not in case["junk"]:
        os.symlink((case["dirs"] or ["nowhere"])[0], f"{out}/latest")
    first = case["first"]
    if case["api"]:
        what = f"from_directory({first}), directories {case['dirs']}, stored {stored}"
        try:
            exporters = list(CdragonRawPatchExporter.from_directory(ExportStorage(root + "/st"), out, PatchVersion(first) if first else None, symlinks=case["symlinks"]))
            rc = 0
        except Exception as e:
            rc, exporters = f"{type(e).__name__}: {e}", []
        done = [dict(output=os.path.normpath(e.output), patch=str(e.patch.version), elements=sorted(x.name for x in e.patch.elements), previous=None if e.prev_patch is None else str(e.prev_patch.version),
                     symlinks=bool(e.create_symlinks), overwrite=True) for e in exporters]
    else:
        argv = (["--from", first] if first else []) + (["-L"] if case["symlinks"] else []) + (["--lazy"] if case["lazy"] else [])
        if case["previous"] == "full":
            argv += ["--full"]
        elif case["previous"]:
            argv += ["--previous", case["previous"]]
        what = f"export {argv}, directories {case['dirs']}, stored {stored}"
        rc, done = run(root, case, argv)
        if not first or case["previous"]:
            eq(rc, 2, f"exit status of {what}, without --from or with --previous or --full")
            eq(done, [], f"exports of {what}")
            ctx.label("refused")
            return
    wanted = [v for v in case["dirs"] if first is None or first == "main" or vtuple(v) >= vtuple(first)]
    if not set(wanted) <= set(stored):
        expect(rc != 0, f"{what}: {set(wanted) - set(stored)} not stored, but nothing is reported")
        eq(done, [], f"exports of {what}, with missing patches")
        ctx.label("missing")
        return
    eq(rc, 0, f"exit status of {what}")
    order = [v for v in stored if v in wanted][::-1]
    want = []
    for prev, v in zip([None] + order, order):
        want.append(dict(output=f"{out}/{v}", patch=v, elements=next_names(case, v), previous=prev, symlinks=case["symlinks"] and prev is not None, overwrite=case["api"] or not case["lazy"]))
    eq(done, want, f"exports of {what}")
    ctx.label("api" if case["api"] else "cli")
    ctx.nontrivial(len(want) > 1)


SUBS = [Sub("one", one_cases, check_one, quick=4000, thorough=60000, rule="at least three stored patches, and a previous patch is used"),
        Sub("all", all_cases, check_all, quick=4000, thorough=60000, rule="at least two patches are exported")]
