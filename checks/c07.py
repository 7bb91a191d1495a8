"""C07 String tables return every text under its key"""
import io
import os
import struct
import xxhash
from hypothesis import strategies as st
from vp import rstgen
from vp.core import Sub, eq, expect, raises, short, Violation
from cdtb import rstfile as R

ASSUMPTIONS = ["every plain text is NUL-terminated; keys are unique within a table",
               "hash widths restated: 40 bits for versions 2-3, 39 for 4-5, 38 since patch 15.2; xxh3 since patch 14.15, xxh64 before"]

GAMES = [800, 1101, 1301, 1401, 1414, 1415, 1416, 1424, 1501, 1502, 1503, 1624, 1701]


@st.composite
def cases(draw):
    game = draw(st.sampled_from(GAMES))
    keys = draw(st.lists(rstgen.st_key(), min_size=1, max_size=5))
    case = draw(rstgen.st_rst(game, keys=st.sampled_from(keys)))
    return dict(game=game, keys=keys, table=case, probe=draw(st.lists(rstgen.st_key(), max_size=3)),
                high=draw(st.integers(0, 2**24 - 1)), default_game=draw(st.booleans()), path=draw(st.booleans()))


def check(case, ctx):
    game, table = case["game"], case["table"]
    data, texts = rstgen.build_rst(table, game)
    kw = {} if (game == 1502 and case["default_game"]) else {"game_version": game}
    if case["path"]:
        path = os.path.join(ctx.tmp(), "x.stringtable")
        with open(path, "wb") as f:
            f.write(data)
        rst = R.RstFile(path, **kw)
    else:
        rst = R.RstFile(io.BytesIO(data), **kw)
    bits = rstgen.bits_for(table["version"], game)
    eq(rst.version, table["version"], "version")
    eq(rst.hash_bits, bits, "hash width")
    eq(rst.font_config, table.get("font"), "font configuration")
    eq(dict(rst.entries), texts, "entries")

    marker = object()

    def lookup(key, h, what):
        if h in texts:
            eq(rst[key], texts[h], f"{what} []")
            eq(rst.get(key), texts[h], f"{what} get")
            eq(rst.get(key, marker), texts[h], f"{what} get with a default")
            eq(key in rst, True, f"{what} in")
        else:
            raises((KeyError,), lambda: rst[key], f"{what}, absent")
            eq(rst.get(key), None, f"{what}, absent: get")
            expect(rst.get(key, marker) is marker, f"{what}, absent: default")
            eq(key in rst, False, f"{what}, absent: in")
    for k in case["keys"] + case["probe"]:
        h = rstgen.rst_hash(k, bits, game)
        forms = {k, k.lower(), k.upper(), k.title(), k.swapcase()}
        for form in sorted(forms):
            if form.lower() == k.lower():
                lookup(form, h, f"text key {form!r}")
        f = xxhash.xxh3_64_intdigest if game >= 1415 else xxhash.xxh64_intdigest
        full = f(k.lower().encode())
        lookup(full, h, f"full hash of {k!r}")
        lookup(h, h, f"masked hash of {k!r}")
        if h in texts:
            ctx.label("key-found")
        else:
            ctx.label("key-absent")
    for h in list(texts):
        lookup(h, h, f"hash {h:x}")
        lookup(h | case["high"] << bits, h, f"hash {h:x} with high bits")
    for bad in (None, 1.5, ("a",), b"a"):
        if isinstance(bad, bytes):
            continue
        raises((KeyError,), lambda: rst[bad], f"key {bad!r}")
        eq(bad in rst, False, f"{bad!r} in")
        expect(rst.get(bad, marker) is marker, f"get({bad!r})")
    # public hash function and list selection
    for k in case["keys"]:
        eq(R.key_to_hash(k, bits, game), rstgen.rst_hash(k, bits, game), f"hash of {k!r}")
        eq(R.key_to_hash(k, rsthash_version=game), rstgen.rst_hash(k, 64, game), f"64-bit hash of {k!r}")
    expect(R.get_hashfile(game) is (R.hashfile_rst_xxh3 if game >= 1415 else R.hashfile_rst_xxh64), f"hash list for {game}")
    ctx.label(f"v{table['version']}", f"bits{bits}", "xxh3" if game >= 1415 else "xxh64")
    for _, t in table["entries"]:
        ctx.label(*t)
    ctx.nontrivial(len(texts) >= 2 and any(rstgen.rst_hash(k, bits, game) in texts for k in case["keys"]))


@st.composite
def bad_cases(draw):
    return dict(magic=draw(st.one_of(st.sampled_from([b"RST", b"RSU", b"rst", b"\0\0\0", b"RS"]), st.binary(min_size=3, max_size=3))),
                version=draw(st.integers(0, 255)), table=draw(rstgen.st_rst(1502)))


def check_bad(case, ctx):
    data, _ = rstgen.build_rst(case["table"], 1502)
    if case["magic"] == b"RST" and case["version"] in (2, 3, 4, 5):
        return
    data = case["magic"] + bytes([case["version"]]) + data[4:]
    raises((ValueError, struct.error), lambda: R.RstFile(io.BytesIO(data)), "not a supported string table")
    ctx.nontrivial(case["magic"] == b"RST")


@st.composite
def large_cases(draw):
    version = draw(st.sampled_from([2, 3, 4, 5, 5]))
    return dict(game=draw(st.sampled_from(GAMES)), version=version, count=draw(st.sampled_from([1, 255, 256, 32768, 65535] + [65536, 70001] * 3)),
                pad=draw(st.sampled_from([0, 255, 32768, 65536, 2**20, 2**23 + 5] + [2**24 - 2**21] * (version < 4) + [2**24 + 3] * (version >= 4))),
                text=draw(st.sampled_from([0, 10, 255, 256, 40000, 65536, 100000])), enc=draw(st.sampled_from([0, 127, 128, 255, 256, 32767, 32768, 65535])),
                font=draw(st.sampled_from([None, 0, 255, 256, 65535, 65536, 100003])), trenc=draw(st.booleans()))


def check_large(case, ctx):
    """Counts, offsets and lengths use their whole range"""
    game, n = case["game"], case["count"]
    bits = rstgen.bits_for(case["version"], game)
    hs = [(i * 0x9e3779b97f4a7c15 + 11) % 2**bits for i in range(n)]
    hs = list(dict.fromkeys(hs))
    trenc = case["trenc"] and case["version"] < 5
    entries = [(h, {"text": b"t%d" % (i % 7)}) if i < 9 else (h, {"share": i % 7, "skip": 0}) for i, h in enumerate(hs)]
    entries[-1] = (entries[-1][0], {"enc": bytes(i % 251 for i in range(case["enc"]))} if trenc else {"text": b"x" * case["text"] + b"!"})
    table = dict(version=case["version"], font=None if case["font"] is None or case["version"] != 2 else "c" * case["font"], trenc=trenc, entries=entries, pad=b"p" * case["pad"])
    data, texts = rstgen.build_rst(table, game)
    rst = R.RstFile(io.BytesIO(data), game_version=game)
    eq(rst.hash_bits, bits, "hash width")
    expect(rst.font_config == table["font"], "font configuration differs")
    got = dict(rst.entries)
    if got != texts:
        eq(len(got), len(texts), "number of entries")
        bad = [h for h in texts if got.get(h) != texts[h]]
        eq({h: short(got.get(h), 60) for h in bad[:3]}, {h: short(texts[h], 60) for h in bad[:3]}, f"{len(bad)} of {len(texts)} texts")
    ctx.label(f"v{case['version']}")
    ctx.nontrivial(n > 65535 or case["pad"] >= 65536)


SUBS = [
    Sub("decode", cases, check, 5000, 80000, "at least two entries, one of them reachable by a generated text key", shards=4),
    Sub("refuse", bad_cases, check_bad, 600, 4000, "right magic, unsupported version", shards=1),
    Sub("large", large_cases, check_large, 60, 1500, "more than 65535 entries, or texts beyond the first 64 KB", shards=2),
]
