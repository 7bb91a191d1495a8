"""C24 Downloaded patch files are complete, exact and fetched only once"""
import os
import resource
from collections import Counter
from hypothesis import strategies as st
from vp import ref, rmangen
from vp import patcherkit as K
from vp.core import Sub, eq, expect, short
from cdtb.patcher import PatcherStorage, PatcherPatchElement

ASSUMPTIONS = ["client and game files of a release have different paths", "identical chunk identifiers have identical content", "file damage changes its size (same-size damage is only repaired when overwriting)",
               "failures are errors raised by requests and writes, removed or truncated extracted files; bundles are not damaged"]

FLAGS = ["en_us", "fr_FR", "ko_kr", "windows", "x64"]
PATHS = ["a.txt", "B.TXT", "Plugins/rcp-be/assets.wad", "Plugins/rcp-be/en_US-assets.wad", "DATA/FINAL/Champions/Ahri.wad.client", "DATA/FINAL/Champions/Ahri.fr_FR.wad.client", "x/y/z", "é.bin", "LeagueClient.exe", "empty"]


@st.composite
def cases(draw):
    pool = draw(st.lists(st.one_of(st.binary(min_size=1, max_size=30), st.sampled_from([b"", b"", b"a", b"b" * 5000, bytes(range(256)) * 40])), unique=True, min_size=1, max_size=7))
    n = len(pool)
    # every chunk is in at least one bundle, a few in two
    place = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    bundles = [[i for i in range(n) if place[i] == b] for b in range(4)]
    for i in draw(st.lists(st.integers(0, n - 1), max_size=2)):
        b = draw(st.integers(0, 3))
        if i not in bundles[b]:
            bundles[b].append(i)
    releases = []
    for _ in range(draw(st.integers(1, 3))):
        paths = draw(st.lists(st.sampled_from(PATHS), unique=True, max_size=6))
        files = []
        for p in paths:
            chunks = draw(st.lists(st.integers(0, n - 1), min_size=0, max_size=4))
            if p == "empty":
                chunks = [i for i in range(n) if not pool[i]][:draw(st.integers(0, 1))]
            link = draw(st.sampled_from([None, None, None, None, None, "a.txt"]))
            files.append(dict(path=p, chunks=[] if link else chunks, langs=draw(st.lists(st.sampled_from(FLAGS), unique=True, max_size=2)), link=link, elem=draw(st.sampled_from(["game", "client"]))))
        if releases and draw(st.booleans()):
            # files of the previous release
            names = {f["path"] for f in files}
            files += [dict(f) for f in releases[-1] if f["path"] not in names]
        releases.append(files)
    lang = st.sampled_from(["en_us", "fr_fr", "FR_fr", "ko_KR", "de_de", "windows"])
    select = st.one_of(st.just(True), st.just(True), st.just(False), lang, st.lists(lang, max_size=2))
    ops = []
    if draw(st.booleans()):
        ops.append(("release", draw(st.integers(0, len(releases) - 1)), True, True))
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 10))
        r, e = draw(st.integers(0, len(releases) - 1)), draw(st.sampled_from(["game", "client"]))
        if k <= 4:
            ops.append(("download", r, e, draw(select)))
        elif k == 5:
            ops.append(("release", r, draw(select), draw(st.booleans())))
        elif k <= 7:
            ops.append(("damage", r, draw(st.integers(0, 9)), draw(st.sampled_from(["truncate", "truncate", "extend", "remove", "remove-target", "same-size"]))))
            if draw(st.booleans()):
                ops.append(("clean",))
            if draw(st.integers(0, 2)):
                ops.append(("release", r, True, True))
        elif k == 8:
            ops.append(("clean",))
        elif k == 9:
            ops.append(("fault", r, e, draw(select), draw(st.integers(0, 3)), draw(st.sampled_from([("connect",), ("status", 404), ("status", 500), ("cut", 0), ("cut", 50), ("cut", 99)]))))
        else:
            ops.append(("diskfull", r, e, draw(select), draw(st.sampled_from([0, 1, 10, 100, 6000]))))
    return dict(pool=pool, bundles=bundles, releases=releases, ops=ops, pbe=draw(st.booleans()), symlinks=draw(st.booleans()), layout=draw(rmangen.layouts()), variant=draw(st.integers(0, 1)))


VERSION_FILES = {"client": ("system.yaml", b"branch: 'Releases/%d.1'\n"), "game": ("content-metadata.json", b'{"version": "%d.1.5.6"}')}


class limited:
    """No regular file can grow over n bytes"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def check(case, ctx):
    pool = case["pool"]
    srv = K.Servers("pbe" if case["pbe"] else "live")
    clock = K.Clock()
    d = ctx.tmp()
    root = os.path.join(d, "cdn")
    releases = []     # {elem: [file description]}
    expected_bundles = {}
    with srv.cdn.installed(), clock.installed():
        storage = PatcherStorage(root, "pbe" if case["pbe"] else "live")
        storage.use_extract_symlinks = case["symlinks"]
        all_bundles = [[pool[i] for i in b] for b in case["bundles"] if b]
        for i, files in enumerate(case["releases"]):
            out = {}
            for elem in ("game", "client"):
                fs = [dict(path=f["path"], chunks=[pool[c] for c in f["chunks"]], langs=f["langs"], link=f["link"]) for f in files if f["elem"] == elem]
                name, text = VERSION_FILES[elem]
                version_data = text % (8 + i)
                fs.append(dict(path=name, chunks=[version_data], langs=[], link=None))
                manifest, bundles = K.build_element(fs, FLAGS, all_bundles + [[version_data]], case["layout"])
                url = srv.add(manifest, bundles, case["variant"])
                expected_bundles.update(bundles)
                setattr(srv, elem, url)
                # where the manifest tells that chunks are
                m = {}
                used = {c for f in fs for c in f["chunks"]}
                for chunks in all_bundles + [[version_data]]:
                    if any(c in used for c in chunks):
                        for c in chunks:
                            m.setdefault(c, set()).add(K.bundle_id(chunks))
                for f in fs:
                    f["bundles"] = [m[c] for c in f["chunks"]]
                out[elem] = fs
            releases.append(out)
            clock.now += 100
            storage.fetch_latest_update()
        rels = list(storage.iter_releases())[::-1]
        eq(len(rels), len(releases), "number of recorded releases")

        def fs_path(ri, f):
            return f"{rels[ri].storage_dir}/files/{f['path']}"

        def read(path):
            try:
                with open(path, "rb") as fp:
                    return fp.read()
            except OSError:
                return None

        everything = [(ri, elem, f) for ri, r in enumerate(releases) for elem, fs in r.items() for f in fs]

        def state():
            return {(ri, f["path"]): read(fs_path(ri, f)) for ri, _, f in everything}

        def on_disk():
            base = os.path.join(root, "channels/public/bundles")
            return {n: read(os.path.join(base, n)) for n in os.listdir(base)} if os.path.isdir(base) else {}

        def check_bundles(what):
            for n, data in on_disk().items():
                eq(data, expected_bundles.get(int(n.split(".")[0], 16)), f"bundle {n} {what}")

        def listed():
            return {p for p, c in ref.read_tree(os.path.join(root, "cdtb", "releases")).items() if "/files/" in p and c is not None}

        def get_elems(ri, only=None):
            return [e for e in rels[ri].elements() if only in (None, e.name)]

        def choices(files):
            """Possible sets of bundles: (always needed, allowed)"""
            sure, maybe = set(), set()
            for f in files:
                for b in f["bundles"]:
                    maybe |= b
                    if len(b) == 1:
                        sure |= b
            return sure, maybe

        def need(files, before, ri):
            return [f for f in files if before[(ri, f["path"])] is None or len(before[(ri, f["path"])]) != len(K.content(f))]

        repaired = faulted = False
        for op in case["ops"]:
            where = f"after {short(op, 100)}"
            before, bundles_before, listed_before = state(), set(on_disk()), listed()
            mark = len(srv.cdn.log)
            if op[0] == "damage":
                ri, f = op[1], None
                here = [f for _, fs in sorted(releases[ri].items()) for f in fs if before[(ri, f["path"])] is not None and f["path"] not in ("system.yaml", "content-metadata.json")]
                if not here:
                    continue
                f = here[op[2] % len(here)]
                path = fs_path(ri, f)
                data = before[(ri, f["path"])]
                if op[3] == "truncate" and data:
                    os.truncate(path, len(data) // 2)
                elif op[3] == "extend":
                    with open(path, "ab") as fp:
                        fp.write(b"!")
                elif op[3] == "remove":
                    os.remove(path)
                elif op[3] == "remove-target":
                    os.remove(os.path.realpath(path))
                elif op[3] == "same-size" and data and data == K.content(f):
                    with open(path, "r+b") as fp:
                        fp.write(bytes([data[0] ^ 1]))
                    # only overwriting repairs it
                    for e in get_elems(ri):
                        e.download_bundles(skip_extracted=False)
                        e.extract(overwrite=True)
                    for f in [f for fs in releases[ri].values() for f in fs if not f["link"]]:
                        eq(read(fs_path(ri, f)), K.content(f), f"content of {f['path']} {where}, overwriting")
                    repaired = True
                continue
            if op[0] == "clean":
                for n in bundles_before:
                    os.remove(os.path.join(root, "channels/public/bundles", n))
                continue
            ri = op[1]
            elems = None if op[0] == "release" else op[2]
            langs = op[2] if op[0] == "release" else op[3]
            files = [f for name, fs in releases[ri].items() if elems in (None, name) for f in fs if K.wanted(f, langs)]
            real = [f for f in files if not f["link"]]
            if op[0] == "release":
                def target():
                    rels[ri].download_bundles(langs=langs, skip_extracted=op[3])
                    rels[ri].extract(langs=langs)
                skip = op[3]
            else:
                elem, = get_elems(ri, elems)
                pe = PatcherPatchElement(elem)
                # the version may have been retrieved
                before, bundles_before, listed_before, mark = state(), set(on_disk()), listed(), len(srv.cdn.log)
                skip = True
                eq(sorted(pe.fspaths(langs=langs)), sorted(fs_path(ri, f) for f in real), f"paths of files {where}")
                eq(sorted(pe.relpaths(langs=langs)), sorted(f["path"].lower() for f in real), f"relative paths of files {where}")
                eq(sorted(pe.paths(langs=langs)), sorted((fs_path(ri, f), f["path"].lower()) for f in real), f"path pairs of files {where}")

                def target():
                    pe.download(langs=langs)
            needed = need(real, before, ri) if skip else real
            sure, maybe = choices(needed)
            present = {int(n.split(".")[0], 16) for n in bundles_before}
            fault_url = None
            if op[0] == "fault":
                candidates = sorted(sure - present)
                if candidates:
                    fault_url = K.bundle_url(candidates[op[4] % len(candidates)])
                    srv.cdn.faults[fault_url] = [op[5]]
            error = None
            try:
                if op[0] == "diskfull":
                    with limited(op[4]):
                        target()
                else:
                    target()
            except Exception as e:
                if fault_url is None and op[0] != "diskfull":
                    raise
                error = e
            srv.cdn.faults.clear()
            after = state()
            check_bundles(where)
            extra = listed() - listed_before - {os.path.relpath(fs_path(ri, f), os.path.join(root, "cdtb", "releases")) for f in real}
            expect(not extra, f"unexpected files {where}: {sorted(extra)}")
            for r2, _, f in everything:
                key = (r2, f["path"])
                good = K.content(f)
                if f["link"]:
                    continue
                if after[key] != before[key] and after[key] != good and after[key] is not None:
                    expect(False, f"wrong content of {f['path']} of release {r2} {where}: {short(after[key])}, want {short(good)}")
                if before[key] == good:
                    eq(after[key], good, f"content of {f['path']} of release {r2}, already extracted, {where}")
            requested = srv.bundle_log(mark)
            dup = [u for u, c in Counter(requested).items() if c > 1]
            expect(not dup, f"bundles requested twice {where}: {dup}")
            allowed = {K.bundle_url(b) for b in maybe - present}
            expect(set(requested) <= allowed, f"bundles requested without need {where}: {sorted(set(requested) - allowed)}")
            if error is not None:
                faulted = True
                continue
            if fault_url is not None:
                expect(False, f"failed request not reported {where}")
            expect({K.bundle_url(b) for b in sure - present} <= set(requested), f"needed bundles not requested {where}")
            for f in real:
                eq(after[(ri, f["path"])], K.content(f), f"content of {f['path']} of release {ri} {where}")
            if any(before[(ri, f["path"])] not in (None, K.content(f)) for f in real):
                repaired = True
    # the storage does not depend on where it is
    before = state()
    moved = os.path.join(d, "elsewhere", "st")
    os.makedirs(os.path.dirname(moved))
    os.rename(root, moved)
    for (ri, path), data in before.items():
        eq(read(os.path.join(moved, os.path.relpath(f"{rels[ri].storage_dir}/files/{path}", root))), data, f"content of {path} of release {ri} after moving the storage")
    os.rename(moved, root)
    manifests = Counter(u for u in srv.cdn.urls() if u.endswith(".manifest"))
    expect(all(c == 1 for c in manifests.values()), f"manifests requested several times: {manifests}")
    ctx.label("symlinks" if case["symlinks"] else "copies", *(["repaired"] if repaired else []), *(["failed"] if faulted else []))
    ctx.nontrivial(any(len(f["chunks"]) > 1 for r in case["releases"] for f in r) and sum(o[0] in ("download", "release", "fault", "diskfull") for o in case["ops"]) > 1)


SUBS = [
    Sub("download", cases, check, 1800, 40000, "several downloads and a file made of several chunks"),
]
