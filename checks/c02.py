"""C02 WAD extraction writes each entry once, under its right name"""
import fnmatch
import os
import xxhash
from hypothesis import strategies as st
from vp import wadgen, ref
from vp.core import Sub, eq, expect, Skip
from vp.cli import run_cli

ASSUMPTIONS = [
    "known paths of one archive do not collide with each other as file names (no file is also a directory)",
    "file names are at most 250 characters after shortening, and ASCII when long (file system limit is 255 bytes); files in directories with longer names are ignored",
    "a path hash denotes files of one type in all archives read by one process (documented cache)",
]

WORDS = ["a", "b", "data", "Assets", "x1", "skins_01", "é", "a b", "#", "unknown"]
EXTS = ["", "", ".bin", ".dds", ".tar.gz", ".JSON", ".", ".cdtb", ".a-b"]


@st.composite
def st_path(draw):
    parts = draw(st.lists(st.sampled_from(WORDS), max_size=2))
    name = draw(st.sampled_from(WORDS))
    ext = draw(st.sampled_from(EXTS))
    if draw(st.integers(0, 3)) == 0:
        # around the limit
        n = draw(st.one_of(st.integers(225, 252), st.integers(200, 320)))
        name = (draw(st.sampled_from(["l", "lo.ng", "x_"])) * 320)[:max(1, n - len(ext))]
        if name.endswith("."):
            name = name[:-1] + "y"
    if draw(st.integers(0, 9)) == 0:
        name = "." + name
    if draw(st.integers(0, 14)) == 0:
        # a directory the file system does not support
        parts.insert(draw(st.integers(0, len(parts))), "dir" * 86)
    return "/".join(parts + [name + ext])


@st.composite
def cases(draw):
    n = draw(st.integers(0, 6))
    version = draw(st.sampled_from(wadgen.VERSIONS))
    entries = []
    known = []
    names = []
    for i in range(n):
        e = draw(wadgen.st_entry(version[0], 0))
        salt = draw(st.integers(0, 3))
        # the hash depends on the content, so that one hash is always the same type
        h = xxhash.xxh64_intdigest(repr((e.get("content"), e["kind"] == wadgen.REDIRECT, salt)).encode())
        e["hash"] = h >> draw(st.sampled_from([0, 0, 4, 16]))
        if e["hash"] in [x["hash"] for x in entries]:
            continue
        p = draw(st.one_of(st.none(), st_path()))
        if e["kind"] != wadgen.REDIRECT:
            name = ref.file_name_of(p, e["hash"], e["content"])
            if ref.conflicts(names + [name]):
                p = None
                name = ref.file_name_of(None, e["hash"], e["content"])
                if ref.conflicts(names + [name]):
                    continue
            names.append(name)
        entries.append(e)
        if p is not None:
            known.append((e["hash"], p))
    case = dict(version=version, entries=entries, known=known)
    if any(e["kind"] == wadgen.CHUNKED for e in entries):
        case["toc"] = dict(hash=wadgen.TOC_HASH, kind=draw(st.sampled_from([0, 1, 3])), pos=draw(st.integers(0, len(entries))),
                           base=draw(st.sampled_from([0, 2])), filler=0)
    case["lazy"] = draw(st.booleans())
    case["unknown"] = draw(st.sampled_from([None, None, "yes", "only", "no"]))
    pats = ["*", "data/*", "*.bin", "a*", "?", "[ab]*", "*.dds", "DATA/*", "*x*", "unknown/*", "*l*"]
    pats += [p for _, p in known]
    case["patterns"] = draw(st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(pats), min_size=1, max_size=2)))
    case["output"] = draw(st.sampled_from([None, "out", "out/deep", "."]))
    case["default"] = draw(st.booleans())
    case["existing"] = draw(st.lists(st.integers(0, 5), max_size=3))
    case["foreign"] = draw(st.booleans())
    case["again"] = draw(st.booleans())
    return case


def check(case, ctx):
    data, info = wadgen.build_wad(case)
    d = ctx.tmp()
    os.makedirs(os.path.join(d, "in"))
    wad = os.path.join(d, "in", "arch.wad")
    with open(wad, "wb") as f:
        f.write(data)
    hashes = dict(case["known"])
    if case.get("toc"):
        hashes[wadgen.TOC_HASH] = "data/final/arch.wad.subchunktoc"
    hpath = os.path.join(d, "h.txt")
    with open(hpath, "w") as f:
        for h, p in hashes.items():
            f.write(f"{h:016x} {p}\n")
    args = ["wad-extract", wad]
    if case["default"]:
        from cdtb.hashes import hashfile_lcu, hashfile_game
        hashfile_lcu.hashes = dict(hashes)
        hashfile_game.hashes = {}
    else:
        args += ["-H", hpath]
    if case["output"] is None:
        out = os.path.join(d, "in", "arch")
    else:
        out = os.path.normpath(os.path.join(d, "o", case["output"]))
        args += ["-o", out]
    if case["unknown"]:
        args += ["-u", case["unknown"]]
    for p in case["patterns"]:
        args += ["-p", p]
    if case["lazy"]:
        args += ["--lazy"]

    # expected content
    want = {}
    selected = 0
    for e in info:
        path = hashes.get(e["hash"])
        if case["unknown"] == "only" and path is not None:
            continue
        if case["unknown"] == "no" and path is None:
            continue
        if case["patterns"] and (path is None or not any(fnmatch.fnmatchcase(path, p) for p in case["patterns"])):
            continue
        if e["data"] is None:
            continue
        selected += 1
        name = ref.file_name_of(path, e["hash"], e["data"])
        if any(len(x) > 255 for x in name.split("/")):
            ctx.label("unsupported-dir")    # ignored, but for its parent directories
            continue
        want[name] = e["data"]
    # pre-existing files: some of the targets, and a foreign one
    before = {}
    targets = sorted(want)
    for i in case["existing"]:
        if targets:
            before[targets[i % len(targets)]] = b"previous content, longer than what replaces it" * 3
    if case["foreign"]:
        before["foreign.txt"] = b"foreign"
    if ref.conflicts(list(set(before) | set(want))):
        raise Skip()
    ref.write_tree(out, before)

    expected = dict(want)
    for p, c in before.items():
        if p not in want or case["lazy"]:
            expected[p] = c
    outside = {k: v for k, v in ref.read_tree(d).items() if not os.path.join(d, k).startswith(out + os.sep)}
    for i in range(2 if case["again"] else 1):
        rc, stdout, err = run_cli(args)
        eq(rc, 0, f"exit status ({err[-300:]})")
        got = ref.read_tree(out)
        if "unsupported-dir" in ctx.labels:
            got = {k: v for k, v in got.items() if v is not None}
        eq(got, expected, f"extracted files (run {i + 1})")
    after = {k: v for k, v in ref.read_tree(d).items() if not os.path.join(d, k).startswith(out + os.sep)}
    for k in list(after):
        if after[k] is None:
            del after[k]  # created directories
    eq(after, outside, "files outside of the output directory")

    if case["lazy"] and any(k in want for k in before):
        ctx.label("lazy-existing")
    if case["patterns"]:
        ctx.label("pattern", f"pattern-selected-{min(selected, 2)}")
    if case["unknown"] in ("only", "no"):
        ctx.label("unknown-" + case["unknown"])
    for p in want:
        if len(os.path.basename(p)) == 250:
            ctx.label("shortened")
        if ".cdtb." in p:
            ctx.label("cdtb-guessed")
        elif p.endswith(".cdtb"):
            ctx.label("cdtb")
        if p.startswith("unknown/"):
            ctx.label("unknown-ext" if "." in p else "unknown-noext")
    ctx.nontrivial(selected >= 2)


SUBS = [Sub("extract", cases, check, 2800, 40000, "at least two entries extracted", shards=4)]
