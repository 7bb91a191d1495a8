"""C05 BIN files decode to exactly the encoded object tree"""
import io
import json
import os
from hypothesis import strategies as st
from vp import bingen, binlib
from vp.core import Sub, eq, expect, raises, short
from vp.cli import run_cli
from cdtb.binfile import BinFile

ASSUMPTIONS = ["field hashes within one object, map keys and entry paths are unique (JSON objects cannot say more)",
               "map keys are integers, booleans, strings or hashes; NaN payload bits are not compared",
               "the printed tree is compared to an exact model of its layout"]

VERSIONS = [None, 100, 421, 922, 923, 924, 1007, 1008, 1009, 1023, 1301, 1510]


@st.composite
def cases(draw):
    game = draw(st.sampled_from(VERSIONS))
    return dict(game=game, names=draw(bingen.st_names()), **draw(bingen.st_binfile(version=game, depth=draw(st.sampled_from([1, 2, 3])))))


def depth_of(t, p):
    if t in ("LIST", "LIST2"):
        return 1 + max([depth_of(p[0], v) for v in p[1]], default=0)
    if t in ("STRUCT", "EMBEDDED"):
        return 1 + max([depth_of(ft, fp) for _, ft, fp in p[1]], default=0)
    if t == "OPTION":
        return 1 + (depth_of(p[0], p[1]) if p[1] is not None else 0)
    if t == "MAP":
        return 1 + max([depth_of(p[1], v) for _, v in p[2]], default=0)
    return 0


def all_types(t, p, out):
    out.add(t)
    if t in ("LIST", "LIST2"):
        for v in p[1]:
            all_types(p[0], v, out)
    elif t in ("STRUCT", "EMBEDDED"):
        for _, ft, fp in p[1]:
            all_types(ft, fp, out)
    elif t == "OPTION" and p[1] is not None:
        all_types(p[0], p[1], out)
    elif t == "MAP":
        for k, v in p[2]:
            all_types(p[0], k, out)
            all_types(p[1], v, out)


def version_text(game):
    return f"{game // 100}.{game % 100}"


def check(case, ctx):
    names = bingen.Names(case["names"])
    binlib.install_names(case["names"])
    data = bingen.build_bin(case, case["game"])
    got = BinFile(io.BytesIO(data), btype_version=case["game"])
    binlib.compare_file(case, got, names)
    want_json = bingen.model_file_json(case, names)
    ser = got.to_serializable()
    expect(bingen.same_json(ser, want_json) or bingen.same_json(json.loads(json.dumps(ser)), want_json), lambda: f"serializable form: {short(ser, 600)}, want {short(want_json, 600)}")

    path = os.path.join(ctx.tmp(), "x.bin")
    with open(path, "wb") as f:
        f.write(data)
    binlib.compare_file(case, BinFile(path, btype_version=case["game"]), names)
    vargs = [] if case["game"] is None else ["-V", version_text(case["game"])]
    rc, out, err = run_cli(["bin-dump", "-j", *vargs, path])
    eq(rc, 0, "bin-dump -j exit status")
    expect(bingen.same_json(json.loads(out), want_json), lambda: f"bin-dump -j: {short(out, 600)}, want {short(want_json, 600)}")
    rc, out, err = run_cli(["bin-dump", *vargs, path])
    eq(rc, 0, "bin-dump exit status")
    eq(out, bingen.model_dump(case, names), "bin-dump output")

    types, depth = set(), 0
    for e in case["entries"]:
        for h, t, p in e["fields"]:
            all_types(t, p, types)
            depth = max(depth, depth_of(t, p))
    for h, path, t, p in case.get("patches", []):
        all_types(t, p, types)
        ctx.label("patched")
    ctx.label(*types, f"depth{depth}", f"game{'now' if case['game'] is None else case['game']}", f"v{case['version']}")
    ctx.nontrivial(depth >= 1 and len(types) >= 3)


@st.composite
def bad_cases(draw):
    return dict(magic=draw(st.one_of(st.sampled_from([b"PROQ", b"prop", b"PTCX", b"", b"PRO", b"\0PRO"]), st.binary(max_size=6))),
                file=draw(bingen.st_binfile(depth=1, max_entries=1)))


def check_bad(case, ctx):
    data = bingen.build_bin(dict(case["file"], patch=False))
    data = case["magic"] + data[4:]
    if data[:4] in (b"PROP", b"PTCH"):
        return
    binlib.install_names({})
    raises((ValueError,), lambda: BinFile(io.BytesIO(data)), "not a BIN file")
    ctx.nontrivial(len(case["magic"]) == 4)


LARGE = {"fields": 16, "struct": 16, "embedded": 16, "string": 16, "linked-length": 16, "list": 32, "list2": 32, "map": 32, "linked": 32, "entries": 32, "patches": 32}


@st.composite
def large_cases(draw):
    what = draw(st.sampled_from(sorted(LARGE)))
    counts = [255, 256, 32767, 32768, 40000, 65535] + ([65536, 70001] * 4 if LARGE[what] == 32 else [65535] * 4)
    return dict(what=what, count=draw(st.sampled_from(counts)), value=draw(st.sampled_from(["U8", "BOOL", "FLAG"])), char=draw(st.sampled_from(["a", "\0", "\xe9"])))


def check_large(case, ctx):
    """Counts and lengths use their whole range"""
    what, n, vt = case["what"], case["count"], case["value"]
    value = (lambda i: i % 3 == 0) if vt == "BOOL" else (lambda i: i % 2)
    hs = [(i * 2654435761 + 7) % 2**32 for i in range(n)]
    text = case["char"] * (n // len(case["char"].encode()))
    fields = [(h, vt, value(i)) for i, h in enumerate(hs)] if what in ("fields", "struct", "embedded") else []
    file = dict(version=3, patch=what == "patches", linked=[], entries=[], patches=[])
    one = {
        "fields": lambda: fields,
        "struct": lambda: [(1, "STRUCT", (5, fields))],
        "embedded": lambda: [(1, "EMBEDDED", (5, fields))],
        "string": lambda: [(1, "STRING", text)],
        "list": lambda: [(1, "LIST", (vt, [value(i) for i in range(n)]))],
        "list2": lambda: [(1, "LIST2", (vt, [value(i) for i in range(n)]))],
        "map": lambda: [(1, "MAP", ("U32", vt, [(h, value(i)) for i, h in enumerate(hs)]))],
    }.get(what, lambda: [])() + [(hs[-1] ^ 1 if what == "fields" else 3, "U16", 513)][:n < 65535 or what != "fields"]
    file["entries"].append(dict(path=9, type=4, fields=one))
    if what == "linked":
        file["linked"] = [f"l{i % 10}" for i in range(n)]
    elif what == "linked-length":
        file["linked"] = [text, "after"]
    elif what == "entries":
        file["entries"] += [dict(path=h, type=h, fields=[]) for h in hs if h != 9]
    elif what == "patches":
        file["patches"] = [(h, "mA", vt, value(i)) for i, h in enumerate(hs)]
    names = bingen.Names({})
    binlib.install_names({})
    got = BinFile(io.BytesIO(bingen.build_bin(file, None)))
    binlib.compare_file(file, got, names)
    ser, want = json.loads(json.dumps(got.to_serializable())), bingen.model_file_json(file, names)
    expect(bingen.same_json(ser, want), lambda: f"serializable form: {short(ser, 300)}, want {short(want, 300)}")
    ctx.label(what)
    ctx.nontrivial(n >= 32768)


SUBS = [
    Sub("decode", cases, check, 2800, 40000, "nested value present and at least three value types", shards=6),
    Sub("refuse", bad_cases, check_bad, 300, 2000, "wrong four-byte magic", shards=1),
    Sub("large", large_cases, check_large, 60, 1500, "a count or length of at least 2**15", shards=2),
]
