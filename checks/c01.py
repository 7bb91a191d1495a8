"""C01 WAD entries decode to exactly the archived content"""
import os
import resource
import struct
from hypothesis import strategies as st
from vp import wadgen
from vp.core import Sub, eq, expect, raises
from vp.cli import run_cli
from cdtb.wad import Wad
from cdtb.hashes import hashfile_game, hashfile_lcu

ASSUMPTIONS = [
    "pyzstd, gzip and xxhash decode and hash correctly (they also encode the generated archives)",
    "archive versions generated: 1.0, 2.x, 3.0-3.5; subchunks only in version 3; at most 15 subchunks per entry (4-bit count)",
]

PATHS = ["data/a.bin", "assets/b/c.d.dds", "plugins/x/global/default/noext", "x.y/z", ".hidden", "data/é.png", "a b/c d.txt"]


@st.composite
def cases(draw):
    case = draw(wadgen.st_wad(contents=wadgen.st_content(big=True)))
    n = len(case["entries"])
    known = draw(st.lists(st.integers(0, max(0, n - 1)), unique=True)) if n else []
    paths = draw(st.permutations(PATHS))
    case["known"] = [(i, paths[j % len(paths)]) for j, i in enumerate(known)]
    case["extra"] = draw(st.lists(st.tuples(wadgen.st_hash(), st.sampled_from(PATHS)), max_size=3))
    case["ext"] = draw(st.sampled_from([".wad", ".wad.client"]))
    case["via"] = draw(st.sampled_from(["arg", "default", "file"]))
    return case


def known_of(case):
    hashes = {}
    used = {e["hash"] for e in case["entries"]} | {wadgen.TOC_HASH}
    for h, p in case["extra"]:
        if h not in used:
            hashes[h] = p
    for i, p in case["known"]:
        hashes[case["entries"][i]["hash"]] = p
    if case.get("toc"):
        hashes[wadgen.TOC_HASH] = "data/final/x.wad.subchunktoc"
    return hashes


def check(case, ctx):
    data, info = wadgen.build_wad(case)
    d = ctx.tmp()
    path = os.path.join(d, "x" + case["ext"])
    with open(path, "wb") as f:
        f.write(data)
    hashes = known_of(case)
    hf, other = (hashfile_game, hashfile_lcu) if case["ext"] == ".wad.client" else (hashfile_lcu, hashfile_game)
    hf.hashes = hashes
    other.hashes = {i["hash"]: "wrong/list.txt" for i in info}
    if case["via"] == "arg":
        hf.hashes = {i["hash"]: "wrong/list.txt" for i in info}
        wad = Wad(path, hashes=hashes)
    else:
        wad = Wad(path)

    eq(tuple(wad.version), tuple(case["version"]), "archive version")
    eq(len(wad.files), len(info), "number of entries")
    for i, (wf, e) in enumerate(zip(wad.files, info)):
        got = dict(hash=wf.path_hash, offset=wf.offset, compressed_size=wf.compressed_size, size=wf.size, kind=wf.type,
                   count=wf.subchunk_count, first=wf.first_subchunk_index, sha=wf.sha256)
        want = {k: e[k] for k in got}
        eq(got, want, f"entry {i}")
        eq(wf.path, hashes.get(e["hash"]), f"path of entry {i}")
        if wf.path is not None:
            eq(wf.ext, os.path.splitext(wf.path)[1][1:], f"extension of entry {i}")
    with open(path, "rb") as f:
        # reading order must not matter
        for i in list(range(len(info))) + list(range(len(info)))[::-1]:
            got = wad.read_file_data(f, wad.files[i])
            eq(got, info[i]["data"], f"data of entry {i} (kind {info[i]['kind']})")
            if info[i]["kind"] != wadgen.CHUNKED:
                eq(wad.files[i].read_data(f), info[i]["data"], f"raw data of entry {i} (kind {info[i]['kind']})")

    # wad-list
    args = ["wad-list", path]
    if case["via"] == "file":
        hpath = os.path.join(d, "h.txt")
        with open(hpath, "w") as f:
            for h, p in hashes.items():
                f.write(f"{h:016x} {p}\n")
        args += ["-H", hpath]
    else:
        hf.hashes = hashes
    rc, out, err = run_cli(args)
    eq(rc, 0, "wad-list exit status")
    want = sorted((hashes.get(e["hash"], "?"), e["hash"]) for e in info)
    eq(out.splitlines(), [f"{h:016x} {p}" for p, h in want], "wad-list output")

    ctx.label(f"v{case['version'][0]}.{case['version'][1]}", *(f"kind{e['kind']}" for e in info))
    if case.get("toc", None) and case["toc"]["base"] > 65535 and any(e["kind"] == 4 for e in info):
        ctx.label("index>65535")
    if sum(1 for e in info if e["kind"] == 4 and len(e["chunks"]) > 1):
        ctx.label("multi-chunk")
    ctx.nontrivial(len(info) >= 2 and any(e["data"] for e in info))


# --- refusals

@st.composite
def bad_cases(draw):
    return dict(wad=draw(wadgen.st_wad(max_entries=2)),
                magic=draw(st.sampled_from([b"RW", b"RV", b"WR", b"rw", b"PK", b"\0\0"])),
                major=draw(st.one_of(st.integers(0, 5), st.integers(0, 255))),
                cut=draw(st.one_of(st.none(), st.integers(0, 300))))


def check_bad(case, ctx):
    data, info = wadgen.build_wad(case["wad"])
    major = case["wad"]["version"][0] if case["major"] in (1, 2, 3) else case["major"]
    data = case["magic"] + bytes([major]) + data[3:]
    path = os.path.join(ctx.tmp(), "x.wad")
    hashes = {wadgen.TOC_HASH: "x.subchunktoc"} if case["wad"].get("toc") else {}
    bad = case["magic"] != b"RW" or major not in (1, 2, 3)
    if case["cut"] is not None and case["cut"] < len(data):
        cut = data[:case["cut"]]
        n = len(info)
        start, width = {1: (8, 24), 2: (100, 32), 3: (268, 32)}.get(major, (8, 24))
        if len(cut) < start + 4 + n * width:
            data = cut
            bad = True   # not even a complete table of entries
    with open(path, "wb") as f:
        f.write(data)
    if bad:
        raises((ValueError, struct.error, EOFError), lambda: Wad(path, hashes=hashes).files, "not a WAD")
        ctx.label("refused")
    else:
        eq(len(Wad(path, hashes=hashes).files), len(info), "entries")
        ctx.label("accepted")
    ctx.nontrivial(bad and case["magic"] == b"RW")


# --- large archives

@st.composite
def large_cases(draw):
    what = draw(st.sampled_from(["count", "offset", "offset", "size"]))
    return dict(what=what, version=draw(st.sampled_from(wadgen.VERSIONS)), count=draw(st.sampled_from([255, 256, 32768, 65535] + [65536, 70001] * 3)) if what == "count" else 2,
                offset=draw(st.sampled_from([2**16, 2**24, 2**31 - 1] + [2**31, 2**31 + 4096, 3 * 2**30, 2**32 - 70000] * 2)),
                size=draw(st.sampled_from([65535, 65536, 2**20, 2**24 - 1, 2**24 + 3])), kind=draw(st.sampled_from([0, 1, 3])), shuffle=draw(st.booleans()))


def check_large(case, ctx):
    """Counts, offsets and sizes use their whole range"""
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 33, 1 << 33))    # the files are sparse
    what, (major, minor), kind = case["what"], case["version"], case["kind"]
    path = os.path.join(ctx.tmp(), "large.wad")
    if kind == 3 and major == 1:
        kind = 1
    content = bytes(range(256)) * (case["size"] // 256 + 1)
    content = content[:case["size"]] if what == "size" else b"content of the last entry"
    hs = [(i * 0x9e3779b97f4a7c15 + 5) % 2**64 for i in range(case["count"])]
    if not case["shuffle"]:
        hs.sort()
    last = dict(hash=hs[-1], kind=kind, content=content, level=1)
    stored, size, _ = wadgen.entry_payload(last)
    start = {1: 8, 2: 100, 3: 268}[major]
    first_offset = start + 4 + len(hs) * {1: 24, 2: 32, 3: 32}[major]
    offset = max(case["offset"], first_offset + 16) if what == "offset" else first_offset + 16
    rows = []
    for i, h in enumerate(hs):
        row = (h, offset, len(stored), size, kind) if i == len(hs) - 1 else (h, first_offset + i % 9, i % 7, i % 7, 0)
        rows.append(struct.pack("<QIIII", *row) if major == 1 else struct.pack("<QIIIBBHQ", *row, 0, 0, i))
    with open(path, "wb") as f:
        f.write(b"RW" + bytes([major, minor]) + b"\0" * (start - 4) + struct.pack("<I", len(hs)) + b"".join(rows) + b"0123456789abcdef")
        f.truncate(offset)    # sparse
        f.seek(offset)
        f.write(stored)
    wad = Wad(path, hashes={hs[-1]: "a/b.txt"})
    eq(len(wad.files), len(hs), "number of entries")
    expect([(wf.path_hash, wf.offset) for wf in wad.files] == [(h, offset if i == len(hs) - 1 else first_offset + i % 9) for i, h in enumerate(hs)], "hashes or offsets of entries differ")
    with open(path, "rb") as f:
        for i in {0, len(hs) // 2, len(hs) - 2} - {len(hs) - 1}:
            eq(wad.files[i].read_data(f), b"0123456789abcdef"[i % 9:][:i % 7], f"data of entry {i}")
        wf = wad.files[-1]
        eq((wf.path, wf.size, wf.compressed_size), ("a/b.txt", size, len(stored)), "last entry")
        expect(wf.read_data(f) == content, "data of the last entry differs")
    os.truncate(path, 0)
    ctx.label(what)
    ctx.nontrivial(what != "count" or len(hs) > 65535)


SUBS = [
    Sub("decode", cases, check, 3200, 60000, "at least two entries, one with content", shards=4),
    Sub("refuse", bad_cases, check_bad, 800, 8000, "right magic but unknown version or truncated table", shards=1),
    Sub("large", large_cases, check_large, 60, 1200, "more than 65535 entries, or an offset or size over 65535", shards=2),
]
