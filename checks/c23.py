"""C23 Release manifests decode to exactly the described files"""
import io
import os
from hypothesis import strategies as st
from vp import rmangen
from vp.core import Sub, Skip, eq, expect, raises, short
from cdtb.patcher import PatcherManifest

ASSUMPTIONS = ["file paths are unique in a manifest", "sizes, names and chunk lists are always present, as in published manifests (other fields may be absent)", "flag names of the locale form (5 characters with an underscore) are languages"]

U64 = st.one_of(st.integers(0, 20), st.integers(0, 2 ** 64 - 1))
U32 = st.one_of(st.integers(0, 300), st.integers(0, 2 ** 32 - 1))
FLAGS = ["en_us", "fr_FR", "ko_KR", "zh_cn", "EN_GB", "macos", "windows", "x64", "a_b", "none", "en-us"]
NAMES = st.one_of(st.sampled_from(["a", "b.wad", "A", "DATA", "Final", "é.txt", "日本", "x y", "system.yaml", "en_US.wad.client", "DATA_1"]), st.text(st.characters(exclude_characters="/\0", exclude_categories=["Cs"]), min_size=1, max_size=12))


@st.composite
def descs(draw):
    bundles = []
    ids = draw(st.lists(U64, unique=True, max_size=5))
    # identifiers that give the same text when concatenated in different ways
    near = st.sampled_from([0x1, 0x2, 0x12, 0x21, 0x121, 0x1212, 0x2121, 0x10, 0x100, 0x1000000000000000, 0x1200000000000000, 0x12 << 32, 0xa, 0xaa, 0xaaa])
    pool = draw(st.lists(draw(st.sampled_from([U64, U64, near])), unique=True, max_size=9))
    for bid in ids:
        bundles.append((bid, [(c, draw(U32), draw(U32)) for c in (draw(st.lists(st.sampled_from(pool), unique=True, max_size=5)) if pool else [])]))
    chunk_ids = sorted({c[0] for _, cs in bundles for c in cs})
    flag_ids = draw(st.lists(st.one_of(st.integers(1, 8), st.sampled_from([31, 32, 33, 63, 64])), unique=True, max_size=6))
    flags = {i: draw(st.sampled_from(FLAGS)) for i in flag_ids}
    dirs = []
    for did in draw(st.lists(U64, unique=True, max_size=6)):
        dirs.append((did, draw(st.sampled_from([None] + [d[0] for d in dirs])), draw(NAMES)))
    dirs = draw(st.permutations(dirs))
    files = []
    for i in range(draw(st.integers(0, 7))):
        mask = 0
        for f in draw(st.lists(st.sampled_from(flag_ids), max_size=3)) if flag_ids else []:
            mask |= 1 << (f - 1)
        files.append(dict(id=draw(U64), name=draw(NAMES), dir=draw(st.sampled_from([None] + [d[0] for d in dirs] * 2)), size=draw(U32), link=draw(st.sampled_from([None, None, None, "", "x/y", "é"])),
                          flags=mask or draw(st.sampled_from([None, 0])), chunks=draw(st.lists(st.sampled_from(chunk_ids), max_size=5)) if chunk_ids else [], perms=draw(st.booleans()), tail=draw(st.sampled_from([0, 0, 1]))))
    # the same chunks for several files
    if len(files) > 1:
        same = draw(st.integers(0, 5))
        if same <= 1:
            files[-1]["chunks"] = list(files[0]["chunks"])
        elif same == 2:
            files[-1]["chunks"] = files[0]["chunks"][::-1]
        elif same == 3:
            files[-1]["chunks"] = files[0]["chunks"] * 2
        elif same == 4:
            # split an identifier in two
            for c in chunk_ids:
                texts = [(c, [int(t[:i], 16), int(t[i:], 16)]) for t in ["%X" % c] for i in range(1, len(t)) if t[i] != "0"]
                texts = [two for _, two in texts if set(two) <= set(chunk_ids)]
                if texts:
                    files[0]["chunks"], files[-1]["chunks"] = [c], texts[0]
    return dict(bundles=bundles, flags=flags, dirs=list(dirs), files=files)


@st.composite
def cases(draw):
    name = st.sampled_from(FLAGS + ["en_us", "fr_fr", "FR_fr", "de_de", "xx_xx", "windows"])
    return dict(desc=draw(descs()), layout=draw(rmangen.layouts()), version=draw(st.sampled_from([(2, 0), (2, 1)])), tail=draw(st.sampled_from([b"", b"\0" * 256])),
                langs=[draw(st.one_of(name, st.lists(name, max_size=3))) for _ in range(3)], form=draw(st.sampled_from(["path", "file", "memory"])))


def check(case, ctx):
    desc = case["desc"]
    paths = [rmangen.full_path(desc, f) for f in desc["files"]]
    if len(set(paths)) != len(paths):
        raise Skip()
    data = rmangen.build_manifest(desc, case["layout"], case["version"], 0x1234567890abcdef, tail=case["tail"])
    if case["form"] == "memory":
        m = PatcherManifest(io.BytesIO(data))
    else:
        path = os.path.join(ctx.tmp(), "x.manifest")
        with open(path, "wb") as f:
            f.write(data)
        if case["form"] == "path":
            m = PatcherManifest(path)
        else:
            with open(path, "rb") as f:
                m = PatcherManifest(f)

    where = {}   # chunk id: [(bundle, offset, size, target size)]
    want = []
    for bid, chunks in desc["bundles"]:
        offset = 0
        row = []
        for c, size, target in chunks:
            row.append((c, bid, offset, size, target))
            where.setdefault(c, []).append((bid, offset, size, target))
            offset += size
        want.append((bid, row))
    eq([(b.bundle_id, [(c.chunk_id, c.bundle.bundle_id, c.offset, c.size, c.target_size) for c in b.chunks]) for b in m.bundles], want, "bundles")
    eq(m.flags, desc["flags"], "flags")
    eq(set(m.chunks), set(where), "chunk identifiers")
    for c, chunk in m.chunks.items():
        expect(chunk.chunk_id == c and (chunk.bundle.bundle_id, chunk.offset, chunk.size, chunk.target_size) in where[c], f"chunk {c}: wrong position")
    eq(set(m.files), set(paths), "file paths")
    for path, f in zip(paths, desc["files"]):
        g = m.files[path]
        eq((g.name, g.size, g.link or "", g.flags, [c.chunk_id for c in g.chunks]), (path, f["size"], f["link"] or "", rmangen.flag_names(desc, f), f["chunks"]), f"file {path}")
        for c in g.chunks:
            expect((c.bundle.bundle_id, c.offset, c.size, c.target_size) in where[c.chunk_id], f"file {path}: wrong chunk position")
    selective = False
    for langs in [True, False] + case["langs"]:
        got = [f.name for f in m.filter_files(langs)]
        keep = [p for p, f in zip(paths, desc["files"]) if rmangen.selected(desc, f, langs)]
        eq(sorted(got), sorted(keep), f"files selected for {langs}")
        selective |= 0 < len(keep) < len(paths)
    eq(sorted(f.name for f in m.filter_files()), sorted(paths), "files selected by default")
    for p, f in zip(paths, desc["files"]):
        for q, g in zip(paths, desc["files"]):
            eq(m.files[p].hexdigest() == m.files[q].hexdigest(), f["chunks"] == g["chunks"], f"equality of digests of {p} and {q}")
    ctx.label(case["form"], "shared chunk" if any(len(w) > 1 for w in where.values()) else "own chunks")
    ctx.nontrivial(selective and any(d[1] is not None for d in desc["dirs"]) and bool(where))


def bad_cases():
    return st.tuples(st.sampled_from([b"RMAN", b"RMAN", b"rman", b"RLSM", b"\0\0\0\0"]), st.sampled_from([(2, 0), (2, 1), (1, 0), (2, 2), (3, 0), (0, 2), (1, 2)]), st.booleans())


def check_bad(case, ctx):
    magic, version, from_path = case
    desc = dict(bundles=[], flags={}, dirs=[], files=[dict(id=1, name="a", dir=None, size=0, link=None, flags=None, chunks=[])])
    data = rmangen.build_manifest(desc, None, version, magic=magic)
    if from_path:
        path = os.path.join(ctx.tmp(), "x.manifest")
        with open(path, "wb") as f:
            f.write(data)
        source = path
    else:
        source = io.BytesIO(data)
    if magic == b"RMAN" and version in ((2, 0), (2, 1)):
        eq(list(PatcherManifest(source).files), ["a"], "files")
    else:
        raises(Exception, lambda: PatcherManifest(source), f"manifest with magic {magic} version {version}")
        ctx.nontrivial()


LARGE = ["files", "file-chunks", "bundle-chunks", "bundles", "dirs", "depth", "name", "link", "dir-name"]


@st.composite
def large_cases(draw):
    what = draw(st.sampled_from(LARGE))
    counts = {"depth": [10, 100, 300]}.get(what, [255, 256, 32767, 32768, 65535, 65536, 70001])
    if what in ("files", "bundles", "dirs", "bundle-chunks"):
        counts = counts[:4] + [65537]
    return dict(what=what, count=draw(st.sampled_from(counts + counts[-1:] * len(counts))), char=draw(st.sampled_from(["a", "\xe9", "\u65e5"])), step=draw(st.sampled_from([1, 0x9e3779b97f4a7c15])))


def check_large(case, ctx):
    """Counts and lengths use their whole range"""
    what, n = case["what"], case["count"]
    ids = [(i * case["step"] + 3) % 2**64 for i in range(n)]
    text = case["char"] * (n // len(case["char"].encode()))
    bundles, dirs, flags = [(1, [(2, 3, 4), (5, 6, 7)])], [], {1: "en_us", 2: "fr_FR"}
    f0 = dict(id=1, name="first", dir=None, size=7, link=None, flags=1, chunks=[2])
    f1 = dict(id=2, name="last", dir=None, size=2**32 - 1, link=None, flags=2, chunks=[5, 2])
    files = [f0, f1]
    if what == "files":
        files = [f0] + [dict(id=i, name=f"f{k}", dir=None, size=k, link=None, flags=None, chunks=[]) for k, i in enumerate(ids)] + [f1]
    elif what == "file-chunks":
        f0["chunks"] = [2, 5, 5] * (n // 3) + [2] * (n % 3)
    elif what == "bundle-chunks":
        bundles = [(1, [(i, 3, 4) for i in ids]), (9, [(ids[0], 1, 2)])]
        f0["chunks"], f1["chunks"] = [ids[-1], ids[n // 2]], ids[:1] + ids[-1:]
    elif what == "bundles":
        bundles = [(i, [(i ^ 1, 3, 4)]) for i in ids]
        f0["chunks"], f1["chunks"] = [ids[-1] ^ 1], [ids[0] ^ 1]
    elif what in ("dirs", "depth"):
        dirs = [(i, None if k == 0 or what == "dirs" else ids[k - 1], f"d{k}") for k, i in enumerate(ids)]
        f0["dir"] = ids[-1]
        f1["dir"] = ids[n // 2]
    elif what == "name":
        f0["name"] = text
    elif what == "link":
        f0["link"] = text
    else:
        dirs = [(7, None, text), (8, 7, "sub")]
        f1["dir"] = 8
    desc = dict(bundles=bundles, flags=flags, dirs=dirs, files=files)
    m = PatcherManifest(io.BytesIO(rmangen.build_manifest(desc)))
    got = [(b.bundle_id, [(c.chunk_id, c.offset, c.size, c.target_size) for c in b.chunks]) for b in m.bundles]
    want = []
    for bid, chunks in bundles:
        off, row = 0, []
        for c, size, target in chunks:
            row.append((c, off, size, target))
            off += size
        want.append((bid, row))
    eq(len(got), len(want), "number of bundles")
    expect(got == want, "the bundles differ")
    by_id = {d[0]: d for d in dirs}

    def path(f):
        parts, d = [f["name"]], f["dir"]
        while d is not None:
            parts.append(by_id[d][2])
            d = by_id[d][1]
        return "/".join(reversed(parts))
    want = {path(f): (f["size"], f["link"] or "", f["chunks"]) for f in files}
    got = {p: (f.size, f.link or "", [c.chunk_id for c in f.chunks]) for p, f in m.files.items()}
    eq(len(got), len(want), "number of files")
    expect(got == want, lambda: f"files {sorted(short(p, 60) for p in want if got.get(p) != want[p])[:3]} differ")
    eq(sorted(f.name[-20:] for f in m.filter_files(["fr_fr"])), sorted(path(f)[-20:] for f in files if rmangen.selected(desc, f, ["fr_fr"])), "files selected for fr_fr")
    ctx.label(what)
    ctx.nontrivial(n > 32767 or what == "depth")


SUBS = [
    Sub("manifest", cases, check, 6000, 100000, "nested directories, chunks, and a language selection keeping only some files"),
    Sub("unsupported", bad_cases, check_bad, 240, 500, "unsupported magic or version"),
    Sub("large", large_cases, check_large, 40, 800, "a count or length of at least 2**15, or nested directories", shards=3),
]
