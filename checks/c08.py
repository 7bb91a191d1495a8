"""C08 JSON companions say what the converted file says"""
import io
import json
import os
import re
from hypothesis import strategies as st
from vp import bingen, binlib, rstgen, infogen, ref
from vp.core import Sub, eq, expect, short
from cdtb import export as E
from cdtb import rstfile as R
from cdtb.hashes import hashfile_game

ASSUMPTIONS = ["JSON is read back with Python's json module", "names in a hash list are distinct, keys of one source file are distinct"]

GAMES = [800, 922, 923, 1007, 1008, 1301, 1414, 1415, 1501, 1502, 9999]


def one_path(tree, path, data, kept):
    if kept:
        eq(tree.pop(path, None), data, "exported original")
    raw = tree.pop(path + ".json", None)
    expect(raw is not None, "no JSON companion")
    eq(tree, {}, "other files")
    return json.loads(raw.decode("utf-8"))


def convert(conv, data, path, ctx, kept, existing):
    expect(conv.is_handled(path), f"{path} not handled")
    eq(sorted(conv.converted_paths(path)), sorted([path + ".json"] + ([path] if kept else [])), "converted paths")
    out = ctx.tmp()
    if existing:
        ref.write_tree(out, {p: b"previous content " * 50 for p in conv.converted_paths(path)})
    conv.convert(io.BytesIO(data), out, path)
    return one_path(ref.read_tree(out), path, data, kept)


# --- string tables

@st.composite
def rst_cases(draw):
    game = draw(st.sampled_from(GAMES))
    keys = draw(st.lists(rstgen.st_key(), min_size=1, max_size=5, unique_by=lambda s: s.lower()))
    return dict(game=game, table=draw(rstgen.st_rst(game, keys=st.sampled_from(keys))),
                known=draw(st.one_of(st.just(keys), st.lists(st.sampled_from(keys), unique=True))), existing=draw(st.booleans()),
                path=draw(st.sampled_from(["game/en_us/data/menu/en_us/main.stringtable", "game/data/menu/fontconfig_en_us.txt"])))


def check_rst(case, ctx):
    game = case["game"]
    data, texts = rstgen.build_rst(case["table"], game)
    good, other = (R.hashfile_rst_xxh3, R.hashfile_rst_xxh64) if game >= 1415 else (R.hashfile_rst_xxh64, R.hashfile_rst_xxh3)
    good.hashes = {rstgen.rst_hash(k, 64, game): k for k in case["known"]}
    other.hashes = {rstgen.rst_hash(k, 64, game): "wrong list " + k for k in case["known"]}
    conv = E.RstConverter(re.compile(r"game/.*\.(txt|stringtable)$"), game)
    got = convert(conv, data, case["path"], ctx, True, case["existing"])
    bits = rstgen.bits_for(case["table"]["version"], game)
    names = {rstgen.rst_hash(k, bits, game): k for k in case["known"]}
    want = {"entries": {names.get(h, f"{{{h:010x}}}"): t for h, t in texts.items()}, "version": case["table"]["version"]}
    eq(got.get("entries"), want["entries"], "JSON entries")
    eq(got, want, "JSON")
    ctx.label(f"v{case['table']['version']}", f"bits{bits}", "known" if any(h in texts for h in names) else "all-unknown")
    ctx.nontrivial(len(texts) >= 2 and any(h in texts for h in names))


# --- BIN

@st.composite
def bin_cases(draw):
    game = draw(st.sampled_from(GAMES))
    return dict(game=game, names=draw(bingen.st_names()), existing=draw(st.booleans()), **draw(bingen.st_binfile(version=game, depth=3)))


def check_bin(case, ctx):
    names = bingen.Names(case["names"])
    binlib.install_names(case["names"])
    data = bingen.build_bin(case, case["game"])
    got = convert(E.BinConverter(re.compile(r"game/.*\.bin$"), case["game"]), data, "game/data/x.bin", ctx, True, case["existing"])
    want = bingen.model_file_json(case, names)
    expect(bingen.same_json(got, want), lambda: f"JSON {short(got, 500)}, want {short(want, 500)}")
    ctx.label(f"game{case['game']}", f"v{case['version']}")
    ctx.nontrivial(any(e["fields"] for e in case["entries"]))


# --- atlas and skins

@st.composite
def atlas_cases(draw):
    return dict(atlas=draw(infogen.st_atlas()), existing=draw(st.booleans()))


def check_atlas(case, ctx):
    atlas = case["atlas"]
    hashfile_game.hashes = dict(atlas["known"])
    conv = E.AtlasInfoConverter(re.compile(r"game/.*\.cdtb$|game/.*/atlas_info\.bin$"))
    path = "game/assets/items/x.cdtb"
    got = convert(conv, infogen.build_atlas(atlas), path, ctx, False, case["existing"])
    want = infogen.model_atlas(atlas)
    expect(bingen.same_json(got, want), lambda: f"JSON {short(got, 500)}, want {short(want, 500)}")
    ctx.label("hashed" if atlas["hashed"] else "text")
    ctx.nontrivial(len(want) >= 2)


@st.composite
def skins_cases(draw):
    return dict(skins=draw(infogen.st_skins()), existing=draw(st.booleans()))


def check_skins(case, ctx):
    path = "game/global/champions/championskins.info"
    got = convert(E.ChampionSkinInfoConverter(), infogen.build_skins(case["skins"]), path, ctx, False, case["existing"])
    want = infogen.model_skins(case["skins"])
    eq(got, want, "JSON")
    ctx.nontrivial(sum(len(s) for _, s in case["skins"]) >= 2)


@st.composite
def large_cases(draw):
    return dict(conv=draw(st.sampled_from(["atlas", "atlas", "atlas", "skins"])), hashed=draw(st.booleans()), what=draw(st.sampled_from(["atlases", "textures", "length"])),
                count=draw(st.sampled_from([255, 256, 32767, 32768, 65535] + [65536, 66001] * 4)), char=draw(st.sampled_from(["a", "\xe9"])))


def check_large(case, ctx):
    """Counts and lengths use their whole range"""
    what, n, rect = case["what"], case["count"], (0, 0x3f800000, 0, 0x3f000000)
    text = case["char"] * (n // len(case["char"].encode()))
    if case["conv"] == "skins":
        n = min(n, 255) if what != "length" else n
        skins = {"atlases": [(f"C{i}", [(i, i, "s")]) for i in range(n)], "textures": [("A", [(i, i % 9, "s") for i in range(n)]), ("B", [(1, 2, "b")])],
                 "length": [(text, [(2**31 + 5, 1, text), (2**32 - 1, 2, "x")]), ("B", [])]}[what]
        got = convert(E.ChampionSkinInfoConverter(), infogen.build_skins(skins), "game/global/champions/championskins.info", ctx, False, False)
        want = infogen.model_skins(skins)
    else:
        name = (lambda i: i * 0x9e3779b97f4a7c15 % 2**64) if case["hashed"] else (lambda i: f"a/{i}.dds")
        atlases = [name(i) for i in range(n if what == "atlases" else 2)]
        if what == "length" and not case["hashed"]:
            atlases[0] = text
        textures = [(name(-i - 1), rect, (n - 1 - i) % len(atlases)) for i in range(n if what == "textures" else 40)]
        if what == "length" and not case["hashed"]:
            textures.append((text, rect, 0))
        atlas = dict(hashed=case["hashed"], atlases=atlases, textures=textures, known={atlases[1]: "A/x.dds"} if case["hashed"] else {}, tail=b"")
        hashfile_game.hashes = dict(atlas["known"])
        got = convert(E.AtlasInfoConverter(re.compile(r"game/.*\.cdtb$")), infogen.build_atlas(atlas), "game/assets/items/x.cdtb", ctx, False, False)
        want = infogen.model_atlas(atlas)
    eq(len(got), len(want), "number of items")
    if not bingen.same_json(got, want):
        bad = [k for k in want if k not in got or not bingen.same_json(got[k], want[k])] if isinstance(want, dict) else []
        expect(False, lambda: f"JSON differs at {short(bad, 200)}: {short(got.get(bad[0]) if bad else got, 200)}, want {short(want[bad[0]] if bad else want, 200)}")
    ctx.label(case["conv"], what)
    ctx.nontrivial(case["count"] > 32767)


SUBS = [
    Sub("stringtable", rst_cases, check_rst, 1800, 30000, "two entries, one with a known key", shards=2),
    Sub("bin", bin_cases, check_bin, 1400, 20000, "an entry with fields", shards=3),
    Sub("atlas", atlas_cases, check_atlas, 1400, 20000, "at least two textures", shards=2),
    Sub("skins", skins_cases, check_skins, 800, 10000, "at least two skins", shards=1),
    Sub("large", large_cases, check_large, 60, 1200, "a count or length of at least 2**15", shards=2),
]
