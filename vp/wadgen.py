"""Independent WAD writer and archive generators (nothing here imports the code under test)."""
import gzip
import struct
import pyzstd
import xxhash
from hypothesis import strategies as st

RAW, GZIP, REDIRECT, ZSTD, CHUNKED = 0, 1, 2, 3, 4


def wad_hash(path):
    return xxhash.xxh64_intdigest(path.lower().encode("utf-8", "surrogatepass"))


def zcompress(data, level=3, checksum=False):
    return pyzstd.compress(data, {pyzstd.CParameter.compressionLevel: level, pyzstd.CParameter.checksumFlag: int(checksum)})


def zcompress_stream(data, level=3):
    """A frame that does not announce the size of its content"""
    c = pyzstd.ZstdCompressor(level)
    return c.compress(data[:len(data) // 2]) + c.compress(data[len(data) // 2:]) + c.flush()


def split_frames(content, cuts):
    """Cut content at relative positions (0..1000): concatenated compressed frames"""
    at = sorted({len(content) * c // 1000 for c in cuts})
    return [content[a:b] for a, b in zip([0] + at, at + [len(content)])]


def split_chunks(content, cuts):
    """Cut content into chunks; cuts = list of (relative size 0..1000, compressed)"""
    out = []
    pos = 0
    for i, (w, comp) in enumerate(cuts):
        end = len(content) if i == len(cuts) - 1 else min(len(content), pos + (len(content) * w) // 1000)
        out.append((content[pos:end], comp))
        pos = end
    return out


def store_chunk(raw, comp):
    """Stored bytes of a chunk: same length means stored as is"""
    if comp:
        z = zcompress(raw)
        if len(z) != len(raw):
            return z
    return raw


def entry_payload(e):
    """(stored bytes, uncompressed size, [(stored, raw)]) of an entry description"""
    k = e["kind"]
    c = e.get("content", b"")
    if k == RAW:
        return c, len(c), None
    if k == GZIP:
        return b"".join(gzip.compress(x, e.get("level", 6), mtime=0) for x in split_frames(c, e.get("frames", []))), len(c), None
    if k == ZSTD:
        one = (lambda x: zcompress_stream(x, e.get("level", 3))) if e.get("stream") else \
              (lambda x: zcompress(x, e.get("level", 3), e.get("checksum", False)))
        return b"".join(map(one, split_frames(c, e.get("frames", [])))), len(c), None
    if k == REDIRECT:
        t = e["target"].encode() + b"\0" * e.get("nul", 0)
        return struct.pack("<L", len(t)) + t + e.get("tail", b""), 4 + len(t), None
    if k == CHUNKED:
        chunks = [(store_chunk(r, z), r) for r, z in split_chunks(c, e["cuts"])]
        return b"".join(s for s, _ in chunks), len(c), chunks
    raise ValueError(k)


def build_wad(case):
    """Write an archive.

    case: version (major, minor); entries: list of dicts
      hash, kind, content/target, [cuts], [level], [sha], [gap: bytes before the payload], [share: entry index],
      [flag: v2/v3.0 duplicate byte]
    toc: None or dict(hash, kind, pos, base, filler: extra trailing slots) -- the subchunk table entry
    order: permutation seed for the data section (list of ints)
    Returns (bytes, info) where info is a list of per-entry dicts in archive order, as they must be reported.
    """
    major, minor = case["version"]
    entries = [dict(e) for e in case["entries"]]
    toc = case.get("toc")
    table = b""
    if toc is not None:
        index = toc.get("base", 0)
        rows = []
        for e in entries:
            if e["kind"] == CHUNKED:
                _, _, chunks = entry_payload(e)
                e["first"] = index
                for s, r in chunks:
                    rows.append(struct.pack("<IIQ", len(s), len(r), xxhash.xxh3_64_intdigest(s)))
                index += len(chunks)
                for _ in range(e.get("slot_gap", 0)):
                    rows.append(b"\xee" * 16)
                    index += 1
        table = b"\0" * (16 * toc.get("base", 0)) + b"".join(rows) + b"\0" * (16 * toc.get("filler", 0))
        te = dict(hash=toc["hash"], kind=toc["kind"], content=table, gap=b"", toc=True)
        entries.insert(min(toc["pos"], len(entries)), te)

    n = len(entries)
    start, width = {1: (8, 24), 2: (100, 32), 3: (268, 32)}[major]
    data_start = start + 4 + n * width
    payloads = [entry_payload(e) for e in entries]
    for i, e in enumerate(entries):
        if e.get("corrupt") and payloads[i][0]:    # stored bytes that do not match the subchunk table
            b = payloads[i][0]
            k = e["corrupt"] % len(b)
            payloads[i] = (b[:k] + bytes([b[k] ^ 0x55]) + b[k + 1:], *payloads[i][1:])
    order = case.get("order") or []
    idx = sorted(range(n), key=lambda i: (order[i % len(order)] if order else 0, i))
    offsets = {}
    blob = b""
    for i in idx:
        e = entries[i]
        share = e.get("share")
        blob += e.get("gap", b"")
        offsets[i] = data_start + len(blob)
        blob += payloads[i][0]
    blob += case.get("tail", b"")

    head = b"RW" + bytes([major, minor])
    fill = case.get("fill", b"\0")
    head += (fill * (start // len(fill) + 1))[:start - 4]
    head += struct.pack("<I", n)
    rows = b""
    info = []
    for i, e in enumerate(entries):
        stored, size, chunks = payloads[i]
        sha = e.get("sha", 0)
        count = len(chunks) if chunks is not None else 0
        first = e.get("first", e.get("first_raw", 0))
        t = (count << 4) | e["kind"]
        if major == 1:
            rows += struct.pack("<QIIII", e["hash"], offsets[i], len(stored), size, t)
            first_r, sha_r, dup = None, None, False
        elif major == 2 or minor <= 3:
            rows += struct.pack("<QIIIBBHQ", e["hash"], offsets[i], len(stored), size, t, e.get("flag", 0), first & 0xffff, sha)
            first_r, sha_r, dup = first & 0xffff, sha, bool(e.get("flag", 0))
        else:
            rows += struct.pack("<QIIIBBHQ", e["hash"], offsets[i], len(stored), size, t, first >> 16, first & 0xffff, sha)
            first_r, sha_r, dup = first, sha, False
        info.append(dict(hash=e["hash"], offset=offsets[i], compressed_size=len(stored), size=size, kind=e["kind"],
                         count=count, first=first_r, sha=sha_r, dup=dup,
                         data=None if e["kind"] == REDIRECT else e.get("content", b""), chunks=chunks,
                         stored=stored, toc=e.get("toc", False)))
    return head + rows + blob, info


# ---------------------------------------------------------------- generators

VERSIONS = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5)]

MAGICS = [b'\xff\xd8\xff\xdb', b'\x89PNG\r\n\x1a\n', b'OggS', b'DDS ', b'PROP', b'PTCH', b'BKHD', b'r3d2Mesh', b'r3d2',
          b'TEX\0', b'OTTO\0', b'{"a": 1}', b'[1]', b'<svg', b'UnityFS', bytes.fromhex('33221100')]


def st_content(big=False):
    sizes = st.binary(max_size=24)
    base = [
        sizes,
        st.binary(max_size=200),
        st.builds(lambda a, n: a * n, st.binary(min_size=1, max_size=6), st.integers(1, 300)),
        st.builds(lambda m, b: m + b, st.sampled_from(MAGICS), st.binary(max_size=20)),
    ]
    if big:
        base.append(st.builds(lambda a, n: (a * (n // len(a) + 1))[:n], st.binary(min_size=1, max_size=40), st.integers(1, 70000)))
    return st.one_of(base)


def st_hash():
    return st.one_of(st.integers(0, 2**64 - 1), st.integers(0, 50), st.just(2**64 - 1))


@st.composite
def st_entry(draw, major, h, kinds=None, contents=None):
    if kinds is None:
        kinds = [RAW, GZIP, ZSTD, REDIRECT] + ([CHUNKED, CHUNKED] if major == 3 else [])
    e = dict(hash=h, kind=draw(st.sampled_from(kinds)))
    if e["kind"] == REDIRECT:
        e["target"] = draw(st.text(st.characters(codec="utf-8", exclude_characters="\0"), max_size=12))
        e["nul"] = draw(st.integers(0, 2))
    else:
        e["content"] = draw(contents if contents is not None else st_content())
    if e["kind"] in (GZIP, ZSTD):
        e["level"] = draw(st.integers(1, 9))
        e["frames"] = draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 1000), max_size=3)))
    if e["kind"] == ZSTD:
        e["checksum"] = draw(st.booleans())
        e["stream"] = draw(st.booleans())
    if e["kind"] == CHUNKED:
        n = draw(st.one_of(st.integers(0, 4), st.integers(0, 15)))
        if n == 0:
            e["content"] = b""
        e["cuts"] = draw(st.lists(st.tuples(st.integers(0, 700), st.booleans()), min_size=n, max_size=n))
        e["slot_gap"] = draw(st.sampled_from([0, 0, 0, 1, 3]))
    if major != 1:
        e["sha"] = draw(st_hash())
        e["flag"] = draw(st.sampled_from([0, 0, 1]))
    e["gap"] = draw(st.sampled_from([b"", b"", b"\0", b"\xaa" * 7]))
    return e


@st.composite
def st_wad(draw, versions=VERSIONS, max_entries=6, hashes=None, kinds=None, contents=None, toc_hash=None, toc_bases=None):
    """An archive description; chunked entries come with a subchunk table"""
    version = draw(st.sampled_from(versions))
    major = version[0]
    hs = draw(st.lists(hashes if hashes is not None else st_hash(), max_size=max_entries, unique=True))
    if toc_hash is None:
        toc_hash = 0x70c70c70c70c
    hs = [h for h in hs if h != toc_hash]
    entries = [draw(st_entry(major, h, kinds, contents)) for h in hs]
    case = dict(version=version, entries=entries)
    if any(e["kind"] == CHUNKED for e in entries) or (major == 3 and draw(st.integers(0, 9)) == 0):
        bases = toc_bases
        if bases is None:
            bases = [0, 0, 1, 3, 200, 255, 256]
            if version >= (3, 4):
                bases += [65530, 65535, 65536, 70000, 131072 + 5, 0x30001]
            else:
                bases += [32768, 65300]
        case["toc"] = dict(hash=toc_hash, kind=draw(st.sampled_from([RAW, GZIP, ZSTD, ZSTD])),
                           pos=draw(st.integers(0, len(entries))), base=draw(st.sampled_from(bases)),
                           filler=draw(st.integers(0, 2)))
    case["order"] = draw(st.lists(st.integers(0, 9), max_size=4))
    case["fill"] = draw(st.sampled_from([b"\0", b"\xff", b"RW\x03\x01"]))
    case["tail"] = draw(st.sampled_from([b"", b"", b"tail"]))
    return case


TOC_HASH = 0x70c70c70c70c
