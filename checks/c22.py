"""C22 RADS releases list and extract exactly their files"""
import os
import gzip
import zlib
from hypothesis import strategies as st
from vp import ref
from vp.cdn import CDN
from vp.core import Sub, eq, expect, raises
from vp.pegen import build_exe
from cdtb.data import Language
from cdtb.rads import RadsStorage, RadsSolution, RadsSolutionVersion, RadsProject, RadsProjectVersion, RadsVersion

ASSUMPTIONS = ["files of a package do not overlap (empty files may be anywhere)", "no two files of a release have the same extract path", "each release lists a file once",
               "patch versions never decrease from a release of a solution to the next one, as documented"]

URL = "http://cdn.test/releases/live/"
LANGS = ["en_us", "fr_fr", "ko_kr", "zh_cn", "en_gb"]
SOLUTIONS = {"league_client_sln": ("league_client", "system.yaml"), "lol_game_client_sln": ("lol_game_client", "League of Legends.exe")}


def rads_version():
    n = st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11, 99, 100, 255]))
    return st.tuples(st.just(0), st.just(0), n, n).map(lambda t: ".".join(map(str, t)))


def contents():
    return st.one_of(st.binary(max_size=40), st.sampled_from([b"", b"\0" * 300, b"abc" * 500, bytes(range(256)) * 3]))


@st.composite
def file_sets(draw, max_size=6):
    names = st.sampled_from(["a.txt", "B.TXT", "dir/c.bin", "Dir2/Sub/d.wad", "e", "f.compressed.txt", "é.txt", "g h.txt", "DATA/FINAL/Champions/Ahri.wad.client", "x.inibin", "deploy/bin/y.dll", "empty"])
    out = []
    for name in draw(st.lists(names, unique=True, max_size=max_size)):
        out.append(dict(name=name, data=draw(contents()), comp=draw(st.sampled_from([None, None, "zlib", "gzip", "zlib0"])), package=draw(st.integers(0, 2)), gap=draw(st.sampled_from([0, 0, 0, 1, 7, 100])),
                        old=draw(st.integers(0, 4)) == 0))
    return out


@st.composite
def release_cases(draw):
    sol = draw(st.sampled_from(sorted(SOLUTIONS)))
    main, _ = SOLUTIONS[sol]
    extra = draw(st.lists(st.sampled_from(["lol_air_en", main + "_en_us", main + "_fr_fr", main + "_extra", "other"]), unique=True, max_size=4))
    projects = [dict(name=n, version=draw(rads_version()), required=i == 0 or draw(st.integers(0, 3)) == 0, files=draw(file_sets()), order=draw(st.permutations(range(6))), pack=draw(st.permutations(range(6))))
                for i, n in enumerate([main] + extra)]
    langs = {l: draw(st.lists(st.integers(0, len(projects) - 1), unique=True, max_size=3)) for l in draw(st.lists(st.sampled_from(LANGS), unique=True, max_size=4))}
    select = st.one_of(st.sampled_from([True, False]), st.sampled_from(sorted(langs)) if langs else st.just(True), st.lists(st.sampled_from(sorted(langs)), unique=True, min_size=1, max_size=3) if langs else st.just(False))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 7))
        langsel = draw(select)
        enum = draw(st.booleans())
        if k <= 3:
            ops.append(("download", langsel, enum))
        elif k == 4:
            ops.append(("project", draw(st.integers(0, 4))))
        elif k == 5:
            ops.append(("extract", draw(st.integers(0, 4)), draw(st.lists(st.integers(0, 8), max_size=3))))
        else:
            ops.append(("fault", langsel, enum, draw(st.integers(0, 4)), draw(st.integers(0, 2)), draw(st.sampled_from([("connect",), ("status", 404), ("status", 503), ("cut", 0), ("cut", 50), ("cut", 99), ("short", 50), ("short", 99)]))))
    return dict(solution=sol, version=draw(rads_version()), patch=draw(st.tuples(st.integers(7, 13), st.integers(1, 24))), projects=projects, langs=langs,
                blocks=draw(st.lists(st.sampled_from([1, 2, 3, 5, 16, 100, 1000, 100000]), max_size=4)), eol=draw(st.sampled_from(["\r\n", "\n"])), ops=ops,
                present=draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 8)), max_size=3)), exe=draw(st.booleans()), queries=[draw(select) for _ in range(2)])


def compress(data, kind):
    if kind == "gzip":
        return gzip.compress(data, mtime=0)
    return zlib.compress(data, 0 if kind == "zlib0" else 6)


def version_file(sol, patch):
    if sol == "league_client_sln":
        return f"keystone:\n  xbranch: '1.1'\n  branch: master\n    game-branch: 'Releases/{patch[0]}.{patch[1]}'\nbranch: '1.2'\n".encode()
    return build_exe(f"{patch[0]}.{patch[1]}.123.4567")


def build_release(case, cdn):
    """Fill the CDN, return [{extract path: (data, package url)}] for each project"""
    eol = case["eol"]
    sol, version = case["solution"], case["version"]
    out = []
    for name in SOLUTIONS:
        cdn.routes[f"{URL}solutions/{name}/releases/releaselisting"] = b""
    for i, p in enumerate(case["projects"]):
        base = f"projects/{p['name']}/releases/{p['version']}"
        files = [dict(f) for f in p["files"]]
        if i == 0:
            files.append(dict(name="deploy/" + SOLUTIONS[sol][1], data=version_file(sol, case["patch"]), comp="zlib" if case["exe"] else None, package=0, gap=0, old=False))
        elements = {}
        packages = {}
        stored = {}
        order = [k for k in list(p["pack"]) + list(range(6, 20)) if k < len(files)]
        for k in order:
            f = files[k]
            raw = compress(f["data"], f["comp"]) if f["comp"] else f["data"]
            blob = packages.setdefault(f["package"], bytearray())
            blob += b"\xee" * f["gap"]
            stored[k] = (len(blob), len(raw))
            blob += raw
        lines = ["PKG1"]
        for k in [k for k in list(p["order"]) + list(range(6, 20)) if k < len(files)]:
            f = files[k]
            path = f"projects/{p['name']}/releases/{'0.0.0.0' if f['old'] else p['version']}/files/{f['name']}"
            package = f"BIN_0x{f['package']:08x}"
            lines.append(f"/{path}{'.compressed' if f['comp'] else ''},{package},{stored[k][0]},{stored[k][1]},{k % 7}")
            elements[path] = (f["data"], f"{URL}{base}/packages/files/{package}")
        cdn.routes[f"{URL}{base}/packages/files/packagemanifest"] = (eol.join(lines) + eol).encode()
        cdn.routes[f"{URL}{base}/releasemanifest"] = b"RLSM" + p["name"].encode()
        cdn.routes[f"{URL}projects/{p['name']}/releases/releaselisting"] = (p["version"] + eol).encode()
        for k, blob in packages.items():
            cdn.routes[f"{URL}{base}/packages/files/BIN_0x{k:08x}"] = bytes(blob)
        out.append(elements)
    lines = ["RADS Solution Manifest", "1.0.0.0", sol, version, str(len(case["projects"]))]
    for p in case["projects"]:
        lines += [p["name"], p["version"], "0" if p["required"] else "10", "0"]
    lines.append(str(len(case["langs"])))
    for lang, deps in case["langs"].items():
        lines += [lang, "0", str(len(deps))] + [case["projects"][d]["name"] for d in deps]
    cdn.routes[f"{URL}solutions/{sol}/releases/{version}/solutionmanifest"] = (eol.join(lines) + eol).encode()
    cdn.routes[f"{URL}solutions/{sol}/releases/releaselisting"] = (version + eol).encode()
    return out


def selected(case, langs):
    """Indexes of selected projects"""
    required = {i for i, p in enumerate(case["projects"]) if p["required"]}
    if langs is False:
        return required
    if langs is True:
        return required | {d for deps in case["langs"].values() for d in deps}
    return {d for l in ([langs] if isinstance(langs, str) else langs) for d in case["langs"][l]}


def arg(langs, enum):
    if not enum or isinstance(langs, bool):
        return langs
    return Language(langs) if isinstance(langs, str) else [Language(l) for l in langs]


def check_release(case, ctx):
    cdn = CDN(blocks=case["blocks"])
    elements = build_release(case, cdn)
    d = ctx.tmp()
    projects = case["projects"]
    with cdn.installed():
        storage = RadsStorage(os.path.join(d, "RADS"), URL)
        sv = RadsSolutionVersion(RadsSolution(storage, case["solution"]), RadsVersion(case["version"]))
        eq([str(v.version) for v in RadsSolution(storage, case["solution"]).versions()], [case["version"]], "solution versions")
        deps = sv.dependencies()

        def names(pvs):
            return sorted((pv.project.name, str(pv.version)) for pv in pvs)

        def model_names(idx):
            return sorted((projects[i]["name"], projects[i]["version"]) for i in idx)
        eq({None if k is None else k.value: [pv.project.name for pv in v] for k, v in deps.items()},
           {None: [p["name"] for p in projects if p["required"]], **{l: [projects[i]["name"] for i in v] for l, v in case["langs"].items()}}, "dependencies")
        for langs in case["queries"] + [True, False]:
            want = selected(case, langs)
            for enum in (False, True):
                eq(names(sv.projects(arg(langs, enum))), model_names(want), f"projects for {langs}{' (enum)' if enum else ''}")
            eq(sorted(sv.filepaths(langs)), sorted(p for i in want for p in elements[i]), f"file paths for {langs}")
        for i, p in enumerate(projects):
            pv = RadsProjectVersion(RadsProject(storage, p["name"]), RadsVersion(p["version"]))
            eq(list(pv.filepaths()), list(elements[i]), f"files of project {p['name']}")
            eq([(v.project.name, str(v.version)) for v in RadsProject(storage, p["name"]).versions()], [(p["name"], p["version"])], "project versions")

        # files already there
        model = {}
        for i, k in case["present"]:
            if i < len(elements) and k < len(elements[i]):
                path = list(elements[i])[k]
                if path.endswith("/" + SOLUTIONS[case["solution"]][1]):
                    continue   # must stay readable
                ref.write_tree(storage.path, {path: b"already extracted"})
                model[path] = b"already extracted"

        def extracted():
            return {p: c for p, c in ref.read_tree(storage.path).items() if isinstance(c, bytes) and "/files/" in p}
        eq(extracted(), model, "files before any download")

        faulted = False
        for op in case["ops"]:
            mark = len(cdn.log)
            paths = {}
            if op[0] in ("download", "fault"):
                for i in selected(case, op[1]):
                    paths.update(elements[i])
                fault_url = None
                if op[0] == "fault":
                    missing = sorted({u for p, (_, u) in paths.items() if p not in model})
                    if missing:
                        fault_url = missing[(op[3] * 3 + op[4]) % len(missing)]
                        # a silent cut must remove needed bytes
                        cdn.faults[fault_url] = [op[5]]
                target = sv.download
                args = (arg(op[1], op[2]),)
            elif op[0] == "project":
                i = op[1] % len(projects)
                paths = dict(elements[i])
                target, args, fault_url = RadsProjectVersion(RadsProject(storage, projects[i]["name"]), RadsVersion(projects[i]["version"])).download, (), None
            else:
                i = op[1] % len(projects)
                keys = [list(elements[i])[k] for k in sorted({k % len(elements[i]) for k in op[2]})] if elements[i] else []
                paths = {k: elements[i][k] for k in keys}
                target, args, fault_url = RadsProjectVersion(RadsProject(storage, projects[i]["name"]), RadsVersion(projects[i]["version"])).extract, (keys,), None
            error = None
            try:
                target(*args)
            except Exception as e:
                if fault_url is None:
                    raise
                error = e
            cdn.faults.clear()
            got = extracted()
            want = dict(model)
            want.update({p: c for p, (c, _) in paths.items() if p not in model})
            needed = {u for p, (_, u) in paths.items() if p not in model}
            requested = [u for u in cdn.urls()[mark:] if "/packages/files/BIN_" in u]
            expect(set(requested) <= needed, f"packages without missing files requested by {op}: {sorted(set(requested) - needed)}")
            if fault_url is not None:
                faulted = True
                kind = op[5][0]
                if error is None and kind not in ("cut", "short"):
                    expect(False, f"error when downloading a package is not reported ({op})")
                if error is not None:
                    # extracted files are complete, others are missing
                    eq({p: c for p, c in got.items() if want.get(p) != c}, {}, f"files differing after a failed download {op}")
                    eq({p: c for p, c in model.items() if got.get(p) != c}, {}, f"files lost after a failed download {op}")
                    model = got
                    continue
            eq(got, want, f"extracted files after {op}")
            eq(sorted(requested), sorted(needed), f"packages requested by {op}")
            model = want

        # the patch element
        elems = list(storage.patch_elements())
        eq([(e.name, str(e.version)) for e in elems], [("client" if case["solution"] == "league_client_sln" else "game", f"{case['patch'][0]}.{case['patch'][1]}")], "patch elements")
        for e in elems:
            for langs in case["queries"]:
                files = [p for i in selected(case, langs) for p in elements[i]]
                fs = list(e.fspaths(langs=langs))
                eq(sorted(fs), sorted(os.path.join(storage.path, p) for p in files), f"paths of the element for {langs}")
                rel = {os.path.join(storage.path, p): p.split("/files/", 1)[1].lower() for p in files}
                eq(sorted(e.relpaths(langs=langs)), sorted(rel.values()), f"relative paths of the element for {langs}")
                eq(dict(e.paths(langs=langs)), rel, f"path pairs of the element for {langs}")
    ctx.label(f"langs{len(case['langs'])}", "faulted" if faulted else "no fault")
    ctx.nontrivial(bool(case["blocks"]) and any(f["comp"] for p in projects for f in p["files"]) and len(projects) > 1)


# --- merging of both solutions

@st.composite
def merge_cases(draw):
    def releases(sol):
        nums = draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 2]), st.one_of(st.integers(0, 12), st.sampled_from([43, 44, 99, 100, 255]))), unique=True, max_size=5))
        patches = sorted(draw(st.lists(st.tuples(st.integers(8, 10), st.sampled_from([1, 2, 3, 9, 10, 11])), min_size=len(nums), max_size=len(nums))))
        out = []
        for (c, d), p in zip(sorted(nums), patches):
            out.append(dict(version=f"0.0.{c}.{d}", patch=p, state=draw(st.sampled_from(["ok", "ok", "ok", "ok", "gone", "old"]))))
        return out
    sols = {s: releases(s) for s in sorted(SOLUTIONS)}
    return dict(solutions=sols, pbe=draw(st.integers(0, 5)) == 0, shuffle=draw(st.integers(0, 10)), later=draw(st.integers(0, 3)), yaml=draw(st.integers(0, 3)), elsewhere=draw(st.booleans()),
                fail=draw(st.one_of(st.none(), st.tuples(st.integers(0, 40), st.sampled_from([("connect",), ("status", 500), ("status", 503), ("status", 403)])))), queries=draw(st.lists(st.tuples(st.integers(8, 10), st.sampled_from([1, 2, 9, 10])), max_size=3)))


YAMLS = ["  branch: \"Releases/{}\"\n", "game-branch: '{}'\n", "x: y\n    branch: 'Release/{}.1'\n# branch: '1.1'\n", "branch: Releases/{}\nbranch: Releases/1.2\n"]


def check_merge(case, ctx):
    cdn = CDN()
    url = RadsStorage.URL_PBE if case["pbe"] else URL
    listings = {}
    for sol, releases in case["solutions"].items():
        project, fname = SOLUTIONS[sol]
        listing = []
        for r in releases:
            patch = f"{r['patch'][0]}.{r['patch'][1]}"
            listing.append(r["version"])
            cdn.routes[f"{url}solutions/{sol}/releases/{r['version']}/solutionmanifest"] = "\r\n".join(
                ["RADS Solution Manifest", "1.0.0.0", sol, r["version"], "1", project, r["version"], "0", "0", "0", ""]).encode()
            base = f"projects/{project}/releases/{r['version']}"
            data = YAMLS[case["yaml"]].format(patch).encode() if sol == "league_client_sln" else build_exe(patch + ".1.2")
            if r["state"] == "gone":
                continue
            if r["state"] == "old" and sol == "league_client_sln" and tuple(map(int, r["version"].split("."))) <= (0, 0, 0, 43):
                cdn.routes[f"{url}{base}/packages/files/packagemanifest"] = b"PKG1\r\n/" + f"{base}/files/other.txt,BIN_0,0,0,0\r\n".encode()
                continue
            cdn.routes[f"{url}{base}/packages/files/packagemanifest"] = b"PKG1\r\n/" + f"{base}/files/{fname},BIN_0,0,{len(data)},0\r\n".encode()
            cdn.routes[f"{url}{base}/packages/files/BIN_0"] = data
        k = case["shuffle"] % (len(listing) + 1)
        listing = listing[::-1] if case["shuffle"] % 2 else listing[k:] + listing[:k]
        listings[sol] = listing
        cdn.routes[f"{url}solutions/{sol}/releases/releaselisting"] = "".join(l + "\r\n" for l in listing).encode()

    def number(v):
        return tuple(map(int, v.split(".")))

    def model(known=None):
        out = {}
        for sol, releases in case["solutions"].items():
            seq = []
            for r in sorted(releases, key=lambda r: number(r["version"]), reverse=True):
                if known is not None and r["version"] not in known[sol]:
                    continue
                gone = r["state"] == "gone" or (r["state"] == "old" and sol == "league_client_sln" and number(r["version"]) <= (0, 0, 0, 43))
                if case["pbe"]:
                    seq.append((r["version"], "main"))
                elif not gone:
                    seq.append((r["version"], f"{r['patch'][0]}.{r['patch'][1]}"))
            out["client" if sol == "league_client_sln" else "game"] = seq
        return out

    def compare(elems, want, what):
        for name, seq in want.items():
            eq([(str(e.solution_version.version), str(e.version)) for e in elems if e.name == name], seq, f"{name} releases, {what}")
        expect(len(elems) == sum(len(s) for s in want.values()), f"unexpected elements, {what}")
        if not case["pbe"]:
            vs = [number(str(e.version)) for e in elems]
            eq(vs, sorted(vs, reverse=True), f"order of merged elements, {what}")

    d = ctx.tmp()
    # the working directory, which may be another storage
    here = f"{d}/here"
    os.makedirs(here)
    if case["elsewhere"]:
        for sol, releases in case["solutions"].items():
            project, fname = SOLUTIONS[sol]
            for r in releases:
                ref.write_tree(here, {f"projects/{project}/releases/{r['version']}/files/{fname}": YAMLS[0].format("1.1").encode() if sol == "league_client_sln" else build_exe("1.1.1.2")})
    before = ref.read_tree(here)
    cwd = os.getcwd()
    os.chdir(here)
    try:
        merge_listings(case, cdn, url, d, model, compare, number)
    finally:
        os.chdir(cwd)
    eq(ref.read_tree(here), before, "working directory after listing")
    ctx.label("pbe" if case["pbe"] else "live")
    ctx.nontrivial(not case["pbe"] and all(model().values()) and len({v for seq in model().values() for _, v in seq}) > 1)


def merge_listings(case, cdn, url, d, model, compare, number):
    with cdn.installed():
        path = os.path.join(d, "s")
        storage = RadsStorage(path, url)
        eq(list(storage.patch_elements(stored=True)), [], "stored elements of an empty storage")
        expect(not cdn.log, "request when listing stored elements of an empty storage")
        for sol, releases in case["solutions"].items():
            eq([str(v.version) for v in RadsSolution(storage, sol).versions()], [r["version"] for r in sorted(releases, key=lambda r: number(r["version"]), reverse=True)], f"versions of {sol}")
        # an error of the server does not hide a release
        manifests = sorted(u for u in cdn.routes if u.endswith("/releaselisting") or not case["pbe"] and u.endswith(("/packagemanifest", "/solutionmanifest", "/BIN_0")))
        if case["fail"] and manifests:
            k, fault = case["fail"]
            cdn.faults[manifests[k % len(manifests)]] = [fault]
            raises(Exception, lambda: list(RadsStorage(path, url).patch_elements()), f"listing with the error {fault}")
            cdn.faults.clear()
        # the latest patch, before all versions are known
        want = model()
        versions = {v for seq in want.values() for _, v in seq}
        latest = max(versions, key=lambda v: number(v) if v != "main" else (0,), default=None)
        p = storage.patch()
        eq(p and str(p.version), latest, "latest patch")
        elems = list(storage.patch_elements())
        compare(elems, want, "first listing")
        mark = len(cdn.log)
        again = list(RadsStorage(path, url).patch_elements())
        compare(again, want, "second listing")
        expect(not [u for u in cdn.urls()[mark:] if "/BIN_" in u], "version files fetched again")
        mark = len(cdn.log)
        stored = list(RadsStorage(path, url).patch_elements(stored=True))
        expect(not [u for u in cdn.urls()[mark:] if "releaselisting" in u], "releases requested when listing stored elements")
        if not case["pbe"]:
            compare(stored, want, "stored")
        got = [(str(p.version), sorted(e.name for e in p.elements)) for p in storage.patches()]
        model_p = [(v, sorted(n for n, seq in want.items() if v in [x for _, x in seq])) for v in sorted(versions, key=lambda v: number(v) if v != "main" else (0,), reverse=True)]
        eq(got, model_p, "patches")
        for q in case["queries"]:
            v = f"{q[0]}.{q[1]}"
            p = storage.patch(v)
            eq(p is not None, v in versions, f"patch {v} found")
            if p:
                for e in p.elements:
                    eq(str(e.solution_version.version), next(sv for sv, pv in want[e.name] if pv == v), f"release of {e.name} in patch {v}")
        # only present solutions are listed
        if os.path.isdir(os.path.join(path, "solutions")):
            eq(sorted(s.name for s in storage.list_solutions()), sorted(os.listdir(os.path.join(path, "solutions"))), "solutions in storage")
        if os.path.isdir(os.path.join(path, "projects")):
            eq(sorted(s.name for s in storage.list_projects()), sorted(os.listdir(os.path.join(path, "projects"))), "projects in storage")


SUBS = [
    Sub("release", release_cases, check_release, 2000, 30000, "several projects, a compressed file and a stream cut in blocks"),
    Sub("merge", merge_cases, check_merge, 1000, 15000, "both solutions have releases, of at least two patches"),
]
