"""C03 Damaged subchunked entries never yield wrong data"""
import os
import struct
import pyzstd
import xxhash
from hypothesis import strategies as st
from vp import wadgen, ref
from vp.core import Sub, eq, expect, Skip
from cdtb.wad import Wad

ASSUMPTIONS = ["no accidental xxh3-64 collision between an original and an altered subchunk",
               "damage is applied to stored subchunks or to the rows of the subchunk table; entry headers are intact"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    version = draw(st.sampled_from([(3, 0), (3, 3), (3, 4)]))
    entries = []
    for i in range(n):
        kinds = [wadgen.CHUNKED] if i == 0 else [wadgen.RAW, wadgen.GZIP, wadgen.ZSTD, wadgen.CHUNKED, wadgen.CHUNKED]
        e = draw(wadgen.st_entry(3, 0, kinds=kinds))
        h = xxhash.xxh64_intdigest(repr((e.get("content"), i)).encode())
        e["hash"] = h
        entries.append(e)
    case = dict(version=version, entries=entries,
                known=draw(st.lists(st.integers(0, n - 1), unique=True)))
    case["toc"] = dict(hash=wadgen.TOC_HASH, kind=draw(st.sampled_from([0, 1, 3])), pos=draw(st.integers(0, n)),
                       base=draw(st.sampled_from([0, 5])), filler=draw(st.integers(0, 2)))
    case["order"] = draw(st.lists(st.integers(0, 9), max_size=4))
    case["damage"] = draw(st.lists(st.tuples(
        st.sampled_from(["flip", "set", "zero", "hash", "csize", "usize", "swap", "cut", "toc-cut"]),
        st.integers(0, n - 1), st.integers(0, 15), st.integers(0, 4000), st.integers(1, 255)), min_size=1, max_size=3))
    case["with_toc"] = draw(st.sampled_from([True, True, True, False]))
    case["lazy"] = draw(st.booleans())
    return case


def check(case, ctx):
    case = dict(case)
    original, info0 = wadgen.build_wad(case)
    data, info = bytearray(original), info0
    hashes = {case["entries"][i]["hash"]: f"known/{i}.dat" for i in case["known"]}
    toc_pos = [i for i, e in enumerate(info) if e["toc"]][0]
    toc = bytearray(info[toc_pos]["data"])
    truncated = None
    sized = {}
    chunked = [i for i, e in enumerate(info) if e["chunks"]]

    def owner(i):
        return chunked[i % len(chunked)] if chunked else None

    for kind, who, chunk, pos, val in case["damage"]:
        i = owner(who)
        if i is None:
            continue
        e = info[i]
        c = chunk % len(e["chunks"])
        start = e["offset"] + sum(len(s) for s, _ in e["chunks"][:c])
        size = len(e["chunks"][c][0])
        row = 16 * (e["first"] + c)
        if kind in ("csize", "usize", "swap"):
            sized[i] = True
        if kind in ("flip", "set", "zero") and size:
            p = start + pos % size
            data[p] = data[p] ^ val if kind == "flip" else (val if kind == "set" else 0)
        elif kind == "hash":
            p = row + 8 + pos % 8
            if p < len(toc):
                toc[p] ^= val
        elif kind == "csize" and row + 16 <= len(toc):
            toc[row:row + 4] = struct.pack("<I", val if pos % 2 else (len(e["chunks"][c][0]) + 1 + val))
        elif kind == "usize" and row + 16 <= len(toc):
            v = len(e["chunks"][c][0]) if pos % 2 else len(e["chunks"][c][1]) ^ val
            toc[row + 4:row + 8] = struct.pack("<I", v)
        elif kind == "swap" and len(e["chunks"]) > 1:
            o = 16 * (e["first"] + (c + 1) % len(e["chunks"]))
            toc[row:row + 16], toc[o:o + 16] = toc[o:o + 16], toc[row:row + 16]
        elif kind == "cut":
            # the file ends inside this entry
            cut = start + (pos % (size + 1))
            truncated = cut if truncated is None else min(truncated, cut)
        elif kind == "toc-cut":
            del toc[row + pos % 16:]

    # rebuild with the damaged table in place: the table is moved to the end of the file
    blob, kind = bytes(toc), info[toc_pos]["kind"]
    stored = {0: lambda: blob, 1: lambda: __import__("gzip").compress(blob), 3: lambda: wadgen.zcompress(blob)}[kind]()
    if truncated is not None:
        del data[max(truncated, 0):]
        first_row = 268 + 4 + 32 * len(info)
        if len(data) < first_row:
            raise Skip()
    off = len(data)
    data += stored
    r = 268 + 4 + 32 * toc_pos
    data[r + 8:r + 20] = struct.pack("<III", off, len(stored), len(blob))

    # what each entry must give: exact data or nothing
    want = {}
    damaged = set()
    for i, e in enumerate(info):
        if e["toc"]:
            want[i] = blob
            continue
        cur = bytes(data[e["offset"]:e["offset"] + e["compressed_size"]])
        if e["chunks"] is None:
            # other entries cut or overwritten by the moved table: out of scope
            want[i] = e["data"] if cur == e["stored"] else Skip
            continue
        rows = b"".join(struct.pack("<IIQ", len(s), len(raw), xxhash.xxh3_64_intdigest(s)) for s, raw in e["chunks"])
        ok_rows = blob[16 * e["first"]:16 * e["first"] + len(rows)] == rows
        if cur == e["stored"] and ok_rows:
            want[i] = e["data"]
        elif cur == e["stored"] and sized.get(i):
            # wrong sizes or order: nothing, or (if harmless) the exact data
            damaged.add(i)
            want[i] = "exact-or-none"
        else:
            damaged.add(i)
            want[i] = None

    d = ctx.tmp()
    path = os.path.join(d, "x.wad")
    with open(path, "wb") as f:
        f.write(data)
    if case["with_toc"]:
        hashes[wadgen.TOC_HASH] = "x.subchunktoc"
    wad = Wad(path, hashes=hashes)
    for i, e in enumerate(info):
        if not case["with_toc"] and e["chunks"] is not None:
            cur = bytes(data[e["offset"]:e["offset"] + e["compressed_size"]])
            if all(z != r for z, r in e["chunks"]) and e["chunks"] and cur == e["stored"]:
                # every subchunk is compressed: can be decompressed as a whole
                want[i] = e["data"]
                damaged.discard(i)
                ctx.label("whole")
            elif cur != e["stored"]:
                want[i] = Skip
            else:
                try:
                    want[i] = pyzstd.decompress(cur)
                    if cur == b"" or want[i] != e["data"]:
                        want[i] = Skip
                except Exception:
                    want[i] = None
    with open(path, "rb") as f:
        for i in list(range(len(info))) + list(range(len(info)))[::-1]:
            if want[i] is Skip:
                continue
            got = wad.read_file_data(f, wad.files[i])
            if want[i] == "exact-or-none":
                if got is not None:
                    eq(got, info[i]["data"], f"data of entry {i} with wrong sizes")
                want[i] = got
            eq(got, want[i], f"data of entry {i}, damaged: {i in damaged}")
    # extraction; entries out of scope are not extracted
    wad.files = [wf for i, wf in enumerate(wad.files) if want[i] is not Skip]
    out = os.path.join(d, "out")
    wad.guess_extensions()
    expected = {}
    for i, e in enumerate(info):
        if want[i] is Skip or want[i] is None:
            continue
        expected[ref.file_name_of(hashes.get(e["hash"]), e["hash"], want[i])] = want[i]
    if not case["lazy"] and expected:
        # files are replaced by default
        ref.write_tree(out, {min(expected): b"old content"})
    wad.extract(out, **(dict(overwrite=False) if case["lazy"] else {}))
    eq(ref.read_tree(out), expected, "extracted files")
    ctx.label(*(k[0] for k in case["damage"]), "toc" if case["with_toc"] else "no-toc", f"damaged{min(len(damaged), 2)}")
    ctx.nontrivial(bool(damaged) and len(expected) >= 2)


SUBS = [Sub("damage", cases, check, 3200, 50000, "some entry damaged and at least two entries intact", shards=4)]
