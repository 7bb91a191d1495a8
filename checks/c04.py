"""C04 File type detection is total and depends only on content"""
import json
import os
import xxhash
from hypothesis import strategies as st
from vp import wadgen, ref
from vp.core import Sub, eq, expect
from cdtb.wad import Wad, WadFileHeader

ASSUMPTIONS = ["the signature list of the check restates the documented one",
               "JSON detection is compared to Python's json module; documents it cannot represent (huge integers, very deep nesting) may be reported either way",
               "a path hash denotes files of one type in all archives read by one process (documented cache)"]

RAW_SIGS = [s for s, _ in ref.SIGNATURES if isinstance(s, bytes)]
JSON = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(), st.text(max_size=4)),
                    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=3)), max_leaves=6)


@st.composite
def st_data(draw):
    k = draw(st.sampled_from(["sig", "sig", "sig-alt", "jfif", "json", "json-mut", "deep", "digits", "bytes", "enc", "text"]))
    tail = draw(st.one_of(st.just(b""), st.binary(max_size=30)))
    if k in ("sig", "sig-alt"):
        s = draw(st.sampled_from(RAW_SIGS))
        if k == "sig-alt":
            m = draw(st.sampled_from(["cut", "case", "flip", "lead"]))
            i = draw(st.integers(0, len(s) - 1))
            if m == "cut":
                return k, s[:i]
            if m == "case":
                s = s.swapcase()
            if m == "flip":
                s = s[:i] + bytes([s[i] ^ draw(st.integers(1, 255))]) + s[i + 1:]
            if m == "lead":
                s = draw(st.sampled_from([b" ", b"\n", b"\0", b"\xef\xbb\xbf"])) + s
        return k, s + tail
    if k == "jfif":
        pre = draw(st.one_of(st.binary(min_size=6, max_size=6), st.sampled_from([s[:6].ljust(6, b"\0") for s in RAW_SIGS]), st.binary(max_size=8)))
        return k, pre + draw(st.sampled_from([b"JFIF", b"Exif", b"JFI", b"EXIF"])) + tail
    if k == "json":
        s = json.dumps(draw(JSON), indent=draw(st.sampled_from([None, 1])), ensure_ascii=draw(st.booleans()))
        ws = draw(st.sampled_from(["", "\n", "  ", "\r\n\t"]))
        if draw(st.integers(0, 5)) == 0:
            n = draw(st.sampled_from([300, 5000, 70000, 300000]))
            s, ws = draw(st.sampled_from([("[" + s + ", 1" * n + "]", ws), (s, ws + " " * n), (s + " " * n, ws), ('"' + "x" * n + '"', ws)]))
        return k, (ws + s + draw(st.sampled_from(["", "\n", " "]))).encode("utf-8", "surrogatepass")
    if k == "json-mut":
        b = json.dumps(draw(JSON)).encode()
        i = draw(st.integers(0, len(b)))
        return k, b[:i] + draw(st.binary(max_size=2)) + b[i + draw(st.integers(0, 2)):]
    if k == "deep":
        n = draw(st.sampled_from([10, 500, 2000, 30000, 200000]))
        o = draw(st.sampled_from([b"[", b'{"a":', b"[[{\"\":"]))
        return k, o * n + (draw(st.sampled_from([b"", b"1", b"]" * n])))
    if k == "digits":
        n = draw(st.sampled_from([20, 4299, 4300, 4301, 5000, 20000]))
        return k, draw(st.sampled_from([b"", b"-", b"[", b'{"a": '])) + b"9" * n + draw(st.sampled_from([b"", b"]", b"}", b".5", b"e5", b"e99999"]))
    if k == "enc":
        s = json.dumps(draw(JSON), ensure_ascii=False)
        b = s.encode(draw(st.sampled_from(["utf-16", "utf-16-le", "utf-32-be", "utf-8-sig", "utf-16-be", "latin-1"])), "replace")
        return k, b + draw(st.sampled_from([b"", b"\0", b"\xff"]))
    if k == "text":
        return k, draw(st.sampled_from([b"NaN", b"-Infinity", b"null", b"tru", b"true", b"false", b'"\xff"', b'"\\ud800"', b"", b" ", b"\0", b"1e999", b"[1,]", b"/* */1", b"\xef\xbb\xbf{}"])) + draw(st.sampled_from([b"", b"\n", b"x"]))
    return k, draw(st.binary(max_size=40))


def acceptable(data):
    want = ref.guess_ext(data)
    if want is None:
        # valid JSON that Python cannot load
        text = None
        try:
            json.loads(data)
        except RecursionError:
            return (None, "json")
        except json.JSONDecodeError:
            return (None,)
        except UnicodeDecodeError:
            return (None,)
        except ValueError:
            return (None, "json")
    return (want,)


def check(case, ctx):
    kind, data = case
    got = WadFileHeader.guess_extension(data)
    expect(got in acceptable(data), lambda: f"detected {got!r}, want {acceptable(data)!r}")
    eq(WadFileHeader.guess_extension(data), got, "second detection")
    ctx.label(kind, f"ext:{got}")
    ctx.nontrivial(len(data) >= 2 and (got is not None or kind not in ("bytes", "text")))


# --- whole archives

@st.composite
def archives(draw):
    version = draw(st.sampled_from([(1, 0), (2, 0), (3, 1), (3, 4)]))
    n = draw(st.integers(1, 6))
    entries, known = [], []
    small = st_data().map(lambda kd: kd[1][:60])
    for i in range(n):
        e = draw(wadgen.st_entry(version[0], 0, contents=small))
        e["hash"] = xxhash.xxh64_intdigest(repr((e.get("content"), i)).encode())
        entries.append(e)
        p = draw(st.sampled_from([None, None, "a/b.dds", "a.b/noext", "x.", "c.json", ".bin", "d.tar.gz"]))
        if p is not None:
            known.append((e["hash"], p))
    case = dict(version=version, entries=entries, known=known)
    if any(e["kind"] == wadgen.CHUNKED for e in entries):
        case["toc"] = dict(hash=wadgen.TOC_HASH, kind=0, pos=0, base=0, filler=0)
    case["twice"] = draw(st.booleans())
    return case


def check_archive(case, ctx):
    data, info = wadgen.build_wad(case)
    path = os.path.join(ctx.tmp(), "x.wad")
    with open(path, "wb") as f:
        f.write(data)
    hashes = dict(case["known"])
    if case.get("toc"):
        hashes[wadgen.TOC_HASH] = "x.subchunktoc"
    for _ in range(2 if case["twice"] else 1):
        wad = Wad(path, hashes=hashes)
        wad.guess_extensions()
        for i, (wf, e) in enumerate(zip(wad.files, info)):
            p = hashes.get(e["hash"])
            eq(wf.path, p, f"path of entry {i}")
            ext = ""
            if p is not None:
                ext = os.path.splitext(p)[1][1:]
            if ext:
                eq(wf.ext, ext, f"extension of known entry {i}")
            elif e["data"]:
                expect((wf.ext or None) in acceptable(e["data"]), lambda: f"entry {i} ({e['data'][:40]!r}): detected {wf.ext!r}, want {acceptable(e['data'])!r}")
            else:
                expect(not wf.ext, lambda: f"entry {i} without data: extension {wf.ext!r}")
    ctx.label(*(f"kind{e['kind']}" for e in info))
    ctx.nontrivial(len(info) > 1 and any(e["data"] and hashes.get(e["hash"]) is None and ref.guess_ext(e["data"]) for e in info))


# --- archives read one after the other: only the same hash may share a type

@st.composite
def st_several(draw):
    pool = draw(st.lists(st.integers(0, 2**64 - 1), min_size=1, max_size=3))
    close = st.builds(lambda h, bit: h ^ (1 << bit), st.sampled_from(pool), st.integers(0, 63))
    hash_ = st.one_of(st.sampled_from(pool), close)
    typed = st.one_of(st.builds(lambda s, t: s + t, st.sampled_from(RAW_SIGS), st.binary(max_size=8)), st.just(b"[1, 2]"), st.just(b""), st.binary(max_size=12))
    content = {}
    wads = []
    for _ in range(draw(st.integers(2, 3))):
        entries = []
        for h in draw(st.lists(hash_, min_size=1, max_size=4, unique=True)):
            if h not in content:
                content[h] = draw(typed)
            entries.append(dict(hash=h, kind=draw(st.sampled_from([wadgen.RAW, wadgen.ZSTD])), content=content[h], sha=0, flag=0))
        wads.append(dict(version=draw(st.sampled_from([(1, 0), (3, 0), (3, 4)])), entries=entries))
    known = [(h, draw(st.sampled_from(["a/b.dds", "noext"]))) for h in sorted(content) if draw(st.integers(0, 4)) == 0]
    return dict(wads=wads, known=known, salt=draw(st.integers(0, 2**64 - 1)))


def check_several(case, ctx):
    # the cache outlives the case: hashes are made unique to it, keeping their distances
    salt = xxhash.xxh64_intdigest(repr(case).encode())
    hashes = {h ^ salt: p for h, p in case["known"]}
    typed = set()
    for n, w in enumerate(case["wads"]):
        w = dict(w, entries=[dict(e, hash=e["hash"] ^ salt) for e in w["entries"]])
        data, info = wadgen.build_wad(w)
        path = os.path.join(ctx.tmp(), f"{n}.wad")
        with open(path, "wb") as f:
            f.write(data)
        wad = Wad(path, hashes=hashes)
        wad.guess_extensions()
        for wf, e in zip(wad.files, info):
            ext = os.path.splitext(hashes.get(e["hash"], ""))[1][1:]
            want = (ext,) if ext else acceptable(e["data"]) if e["data"] else (None,)
            expect((wf.ext or None) in want, lambda: f"archive {n}, entry {e['hash']:016x} ({e['data'][:40]!r}): detected {wf.ext!r}, want {want!r}")
            if not ext and e["data"]:
                typed.add(want)
    ctx.label(f"types:{len(typed)}")
    ctx.nontrivial(len(typed) > 1)


SUBS = [
    Sub("content", st_data, check, 8000, 150000, "at least 2 bytes, recognised or close to a recognised form", shards=3),
    Sub("archive", archives, check_archive, 1800, 30000, "several entries, one with an unknown path and a recognisable content", shards=3),
    Sub("several", st_several, check_several, 1000, 15000, "at least two types among the unknown files of archives with close hashes", shards=2),
]
