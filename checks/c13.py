"""C13 An incremental export shows exactly what a full export shows"""
import os
import shutil
from hypothesis import strategies as st
from vp import wadgen, skngen, bingen, patchgen, ref
from vp.core import Sub, eq, expect, short
from cdtb.export import CdragonRawPatchExporter

ASSUMPTIONS = ["an archive entry's checksum identifies its content",
               "within one patch, an export path given by several sources has one content",
               "a patch is exported with links against a previous patch that was completely exported as it is now",
               "generated assets convert the same way in all the generated versions (format changes between versions come with new files)",
               "the lazy option is used on output directories of the same content only (it skips existing files by design)",
               "when exporting over an existing output directory, no directory of it becomes a file (files have extensions and directories do not, so this needs contrived names; see DESIGN.md)"]

VERSION_POOLS = [["8.24", "9.1", "9.2", "9.10", "9.13"], ["9.9", "9.10", "9.11", "10.1", "10.2"], ["13.24", "14.1", "14.2", "14.3", "14.4"],
                 ["14.3", "14.4", "14.5", "14.10", "main"], ["9.12", "9.13", "9.14", "9.15", "9.16"], ["13.12", "13.13", "13.14", "13.15", "main"]]

# --- universe of files: small, so that patches overlap a lot.  `{}` is the content number.
SKN = [skngen.build_skn(dict(major=1, minor=0, submeshes=[dict(name=n, vertices=[((0, i, 0), (0, 0), (0, 0, i))], faces=[(0, 0, 0)]) for n in names]))
       for i, names in enumerate([["Body"], ["Body", "Weapon"], ["Hat"], ["Body"]])]
BINS = [bingen.build_bin(dict(version=3, patch=False, linked=["x%d" % i], entries=[]), 1502) for i in range(4)]


def content(kind, n):
    if kind == "tex":
        return b"not a texture %d" % n if n == 3 else patchgen.image(bytes([n * 50, n]), ext="tex")
    if kind == "dds":
        return patchgen.image(bytes([n * 50, n + 1]), ext="dds")
    if kind == "skn":
        return SKN[n]
    if kind == "bin":
        return BINS[n] if n < 3 else b"broken"
    if kind == "json":
        return b'{"a": %d}' % n
    return b"text %d" % n if n < 3 else b""


LONG = "long" * 75
GAME_PATHS = ["assets/i.tex", "assets/x/a.dds", "assets/x/b.dds", "assets/x/m.skn", "assets/m.skn", "data/a.bin", "data/b/c.bin", "data/b/d.txt", "data/b/e/f.json",
              "data/b.txt", "data/b.txt/g.txt", "data/champ_skins_x.bin", "sounds/a.bnk", "fonts/f.ttf", "noext", "b/noext", "data/b/e.json", "data/b/e",
              # not supported by the file system: ignored
              f"data/{LONG}/a.txt", f"data/{LONG}/b.txt", f"data/{LONG}/c/d.txt", f"data/b/{LONG}.txt", f"assets/x/{LONG}.dds", f"assets/x/{LONG}/a.dds",
              # only the converted files or only the original are not supported
              f"data/b/{LONG[:250]}.bin", f"assets/x/{LONG[:252]}.skn"]
LCU_PATHS = ["plugins/lol/a.json", "plugins/lol/b/c.js", "plugins/lol/b/d.js", "plugins/lol/b/e/f.dds", "plugins/lol/b", "plugins/lol/description.json", "plugins/lol/x.exe",
             f"plugins/lol/{LONG}/a.json", f"plugins/lol/{LONG}/b.json"]
PLAIN_PATHS = ["a.txt", "d/b.txt", "d/c.txt", "d/e/f.txt", "d/E", "d", "plugins/lol/description.json", "d/x.dll", "D/i.dds", "plugins/lol/readme.txt"]
GAME_WADS = ["DATA/FINAL/Champions/A.wad.client", "DATA/FINAL/Champions/A.en_US.wad.client", "DATA/FINAL/B.wad.client"]
LCU_WADS = ["plugins/rcp-be-lol/assets.wad", "plugins/rcp-be-lol/default-assets.wad"]
KNOWN_GAME = [p for p in GAME_PATHS if p != "sounds/a.bnk"]


def kind_of(path):
    ext = path.rsplit("/")[-1].rsplit(".")
    return ext[-1] if len(ext) > 1 else "txt"


WAD_STYLES = [((1, 0), 0), ((2, 0), 3), ((3, 1), 3), ((3, 1), 1), ((3, 4), 4), ((3, 4), 0)]
CONTENT = st.sampled_from([0, 0, 0, 1, 2, 3])


@st.composite
def st_files(draw, base=None):
    """Content of a patch: {namespace: {path: (content number, sources bits)}}; derived from `base` if given"""
    if base is None:
        out = {"game": {}, "lang": {}, "lcu": {}, "plain": {}}
        for ns, pool in (("game", GAME_PATHS), ("lang", GAME_PATHS), ("lcu", LCU_PATHS), ("plain", PLAIN_PATHS)):
            for p in draw(st.lists(st.sampled_from(pool), max_size=9, unique=True)):
                out[ns][p] = (draw(CONTENT), draw(st.integers(1, 3)))
        out["unknown"] = draw(st.lists(st.integers(0, 5), max_size=3, unique=True))
        out["version"] = draw(st.sampled_from(WAD_STYLES))
    else:
        out = {ns: dict(base[ns]) for ns in ("game", "lang", "lcu", "plain")}
        for _ in range(draw(st.integers(0, 5))):
            ns, pool = draw(st.sampled_from([("game", GAME_PATHS), ("game", GAME_PATHS), ("lang", GAME_PATHS), ("lcu", LCU_PATHS), ("plain", PLAIN_PATHS)]))
            p = draw(st.sampled_from(pool))
            op = draw(st.sampled_from(["set", "set", "del", "del-dir", "sources"]))
            if op == "set":
                out[ns][p] = (draw(CONTENT), draw(st.integers(1, 3)))
            elif op == "del":
                out[ns].pop(p, None)
            elif op == "sources" and p in out[ns]:
                out[ns][p] = (out[ns][p][0], draw(st.integers(1, 3)))
            else:
                d = p.rsplit("/", 1)[0] + "/"
                for q in [q for q in out[ns] if q.startswith(d)]:
                    del out[ns][q]
        out["unknown"] = base["unknown"] if draw(st.booleans()) else draw(st.lists(st.integers(0, 5), max_size=3, unique=True))
        out["version"] = base["version"] if draw(st.integers(0, 3)) else draw(st.sampled_from(WAD_STYLES))
    return out


def well_formed(files):
    """Drop the paths that clash (file and directory, or twice) once exported"""
    taken = set()
    out = dict(files)
    for ns in ("game", "lang", "lcu", "plain"):
        kept = {}
        for p, v in files[ns].items():
            exp = p.lower()
            if ns in ("game", "lang") or ns == "lcu":
                exp = ref.file_name_of(exp, wadgen.wad_hash(p), content(kind_of(p), v[0]))
            # older patches have no language subdirectory
            exps = []
            for prefix in {"game": ["game/"], "lang": ["game/", "game/en_us/"]}.get(ns, [""]):
                e = prefix + exp
                exps += [e] + ([e[:-4]] if e.endswith(".skn") else []) + ([e[:-4] + ".png"] if e[-4:] in (".tex", ".dds") else []) + ([e + ".json"] if e.endswith(".bin") else [])
            if any(e == t or e.startswith(t + "/") or t.startswith(e + "/") for e in exps for t in taken):
                continue
            taken.update(exps)
            kept[p] = v
        out[ns] = kept
    return out


@st.composite
def cases(draw):
    versions = draw(st.sampled_from(VERSION_POOLS))
    n = draw(st.integers(2, 4))
    i = draw(st.integers(0, len(versions) - n))
    contents = []
    for k in range(n + draw(st.integers(0, 2))):
        base = draw(st.sampled_from(contents)) if contents and draw(st.integers(0, 9)) else None
        if contents and draw(st.integers(0, 9)) > 2:
            base = contents[-1]
        contents.append(draw(st_files(base)))
    ops = []
    for k in range(n):
        ops.append((k, k, draw(st.sampled_from(["links", "links", "links", "links", "full", "nolinks"])), k - 1, draw(st.booleans())))
        if draw(st.integers(0, 2)) == 0:
            # export again, possibly with another content, another mode or against another patch
            j = draw(st.integers(0, k))
            ops.append((j, draw(st.sampled_from([j, j, len(contents) - 1, draw(st.integers(0, len(contents) - 1))])),
                        draw(st.sampled_from(["links", "links", "full", "nolinks"])), draw(st.integers(-1, max(0, j - 1))), draw(st.booleans())))
    if draw(st.booleans()):
        # new release of an already exported patch, following patches are updated too
        j = draw(st.integers(0, n - 1))
        c = draw(st.integers(0, len(contents) - 1))
        for k in range(j, n):
            ops.append((k, c if draw(st.integers(0, 3)) else k, "links", k - 1, draw(st.booleans())))
    return dict(versions=versions[i:i + n], contents=contents, ops=ops, shared=draw(st.booleans()), stray=draw(st.booleans()), trail=draw(st.booleans()), alias=draw(st.integers(0, 3)) == 0,
                beside=draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from([".json", ".png", ".tmp", "~", ".bin", ".cdtb"])), max_size=3)))


def sources(files, version):
    """({client rel: bytes}, {game rel: bytes})"""
    wv, storage = files["version"]
    wads = {}
    for ns, names in (("game", [GAME_WADS[0], GAME_WADS[2]]), ("lang", [GAME_WADS[1]]), ("lcu", LCU_WADS)):
        for p, (c, where) in files[ns].items():
            for bit, name in enumerate(names):
                if where >> bit & 1 or len(names) == 1:
                    wads.setdefault(name, []).append((p, content(kind_of(p), c), 3 if ns == "lcu" and storage == 4 else storage))
    for u in files["unknown"]:
        # an unknown entry of each kind of archive; the hash depends on the content
        for name in (GAME_WADS[0], LCU_WADS[1]):
            c = content(["json", "txt", "dds", "json", "skn", "dds"][u], u % 4)
            wads.setdefault(name, []).append((wadgen.wad_hash(f"secret{u}"), c, 3 if storage == 4 else storage))
    client, game = {}, {}
    for name, fs in wads.items():
        (client if name in LCU_WADS else game)[name] = patchgen.wad_bytes(fs, wv)
    for name, fs in patchgen.data_files(version).items():
        game[name] = patchgen.wad_bytes(fs)
    for p, (c, _) in files["plain"].items():
        client[p] = content(kind_of(p), c)
    return client, game


LISTS = ["cdragon/files.exported.txt", "cdragon/files.unknown.txt"]


def check_lists(snap, lists, what):
    """Published lists: the exported and unknown files of the patch in any mode, the links as they are"""
    for p in LISTS:
        eq(snap.get(p), lists[p], f"{what}: {p} compared to a full export")
    links = sorted(p for p, x in snap.items() if isinstance(x, str))
    text = snap.get("cdragon/files.links.txt", b"").decode()
    expect(text.endswith("\n") == bool(text), f"{what}: files.links.txt not ended by a newline")
    # names too long for the file system are listed, as they are in files.exported.txt
    eq([p for p in text.split("\n")[:-1] if p in links or max(map(len, p.split("/"))) < 250], links, f"{what}: files.links.txt compared to the links")


def published(tree):
    t = dict(tree)
    t.pop("cdragon/files.links.txt", None)
    return t


def check(case, ctx):
    patchgen.set_hashes(game=KNOWN_GAME + patchgen.data_paths(), lcu=LCU_PATHS)
    root = ctx.tmp()
    out = f"{root}/out"
    if case["alias"]:
        os.makedirs(f"{root}/real/deep/out")
        os.symlink("real/deep/out", out)
    else:
        os.mkdir(out)
    state = {}      # patch -> (content, mode)
    stale = set()   # patches linking to directories that were rebuilt since
    fulls, full_lists = {}, {}
    linked = 0
    contents = [well_formed(c) for c in case["contents"]]
    patches = {}

    def patch(i, c):
        if (i, c) not in patches:
            client, game = sources(contents[c], case["versions"][i])
            patches[i, c] = patchgen.make_patch(root, f"p{i}.{c}", case["versions"][i], client, game, case["shared"])
        return patches[i, c]

    def full(i, c):
        """What a full export alone shows"""
        if (i, c) not in fulls:
            d = f"{root}/full{i}.{c}/{case['versions'][i]}"
            CdragonRawPatchExporter(d, patch(i, c)).process()
            fulls[i, c] = published(patchgen.visible(d))
            full_lists[i, c] = {p: x for p, x in fulls[i, c].items() if p in LISTS}
        return fulls[i, c]

    for i, c, mode, prev, again in case["ops"]:
        version = case["versions"][i]
        d = f"{out}/{version}"
        if mode == "full":
            prev = None
        elif prev not in state or state[prev][1] == "nolinks" or prev in stale or prev >= i:
            # needs a complete up-to-date previous patch
            prev, mode = None, "full"
        prev_patch = patch(prev, state[prev][0]) if prev is not None else None
        rebuilt = i in state
        if mode == "nolinks" and rebuilt:
            prev_patch, prev, mode = None, None, "full"   # unchanged files of an older export are kept
        lazy = again and (not rebuilt or state[i][0] == c)
        if case["stray"] and not rebuilt:
            ref.write_tree(d, {"stray.txt": b"stray", "game/data/b/old.txt": b"old", "game/data/b.txt/x/y": b"old", "d/e/z/t": b"old"})
        want = full(i, c)
        if case["stray"] and not rebuilt:
            # files named like published ones
            for k, suffix in case["beside"]:
                p = sorted(want)[k % len(want)] if want else ""
                if p.endswith(".obj"):
                    continue   # directories made by a conversion are kept or removed as a whole
                p = p[:-4] + suffix if k % 2 and p[-4:-3] == "." else p + suffix
                if p and p not in want and not p.startswith("cdragon/") and not any(q.startswith(p + "/") for q in want) and len(p.rsplit("/", 1)[-1]) < 250:
                    ref.write_tree(d, {p: b"stray"})
        existing = patchgen.snapshot(d)
        if any(q.startswith(p + "/") for q in existing for p in want):
            shutil.rmtree(d)   # out of scope: a directory of the existing output becomes a file
            ctx.label("dir-to-file skipped")
        older = {v: patchgen.snapshot(f"{out}/{case['versions'][v]}") for v in state if v != i}
        exporter = CdragonRawPatchExporter(d + ("/" if case["trail"] else ""), patch(i, c), prev_patch, symlinks=None if mode != "nolinks" else False)
        exporter.process(overwrite=not lazy)
        what = f"patch {version} (content {c}, {mode}{' against ' + case['versions'][prev] if prev is not None else ''}{', again' if rebuilt else ''})"
        # other patches' directories are not written to
        for v, snap in older.items():
            eq(patchgen.snapshot(f"{out}/{case['versions'][v]}"), snap, f"export of {what}: directory of patch {case['versions'][v]}")
        got = published(patchgen.visible(d))
        if mode == "nolinks":
            check_changed(case, contents, full, i, c, prev, state[prev][0], patchgen.snapshot(d), want, what)
        else:
            eq(got, want, f"{what}: visible files compared to a full export")
        state[i] = (c, mode)
        stale.discard(i)
        if rebuilt:
            # patches exported against this one are to be exported again
            stale.update(v for v in state if v > i)
        # exporting again changes nothing
        snap = patchgen.snapshot(d)
        check_lists(snap, full_lists[i, c], what)
        if mode == "links":
            links = [p for p, x in snap.items() if isinstance(x, str)]
            if links:
                linked += 1
                ctx.label("dir-link" if any(os.path.isdir(f"{d}/{p}") for p in links) else "file-link")
        CdragonRawPatchExporter(d, patch(i, c), prev_patch, symlinks=None if mode != "nolinks" else False).process(overwrite=not again)
        eq(patchgen.snapshot(d), snap, f"{what}: second identical export")
        ctx.label(mode + ("-again" if rebuilt else ""))
    changes = sum(1 for k in range(1, len(contents)) if contents[k] != contents[k - 1])
    ctx.nontrivial(linked >= 1 and changes)


def check_changed(case, contents, full, i, c, prev, prev_c, got, want, what):
    """Without links: exactly the files that changed"""
    before = full(prev, prev_c)
    data = {p: x for p, x in got.items() if isinstance(x, bytes) and not p.startswith("cdragon/")}
    expect(not any(isinstance(x, str) for x in got.values()), f"{what}: links created")
    for p, x in data.items():
        expect(want.get(p) == x, lambda: f"{what}: {p} is not as in a full export: {short(x, 100)}, want {short(want.get(p), 100)}")
    for p, x in want.items():
        if p.startswith("cdragon/"):
            continue
        if before.get(p) != x:
            expect(p in data, f"{what}: changed file {p} is missing")
    # unchanged archive entries, in unchanged places, are left out
    a, b = contents[prev_c], contents[c]
    if a["version"] == b["version"] and a["version"][0][0] != 1:
        for ns, prefix in (("game", "game/"), ("lcu", "")):
            for p, v in b[ns].items():
                if a[ns].get(p) == v and kind_of(p) in ("txt", "json", "js", "ttf"):
                    q = prefix + ref.file_name_of(p, wadgen.wad_hash(p), content(kind_of(p), v[0]))
                    expect(q not in data, f"{what}: unchanged file {q} exported")
    if case["shared"]:
        for p, v in b["plain"].items():
            if a["plain"].get(p) == v and kind_of(p) == "txt":
                expect(p.lower() not in data, f"{what}: unchanged plain file {p} exported")


SUBS = [
    Sub("history", cases, check, 2400, 12000, "a patch has links to another one and contents differ between patches", shards=8),
]
