"""C28 Arena data is exported faithfully for every language"""
import contextlib
import json
import os
from hypothesis import strategies as st
from vp import tftgen as T, binlib, patchgen, ref, wadgen
from vp.core import Sub, default_encoding, eq, expect, short
from cdtb import arenadata
from cdtb import hashes as H
from cdtb.export import CdragonRawPatchExporter
from checks.c27 import check_lang, compare, install, run_main, version_text

ASSUMPTIONS = ["links to spells are null or refer to existing spells, which have spell data", "icons are set; names of augments are distinct; names of data values are texts", "requested languages are available",
               "string tables are binary (Arena appeared long after text tables)"]


@st.composite
def cases(draw):
    d = draw(T.arena_data())
    t = draw(T.tables(T.ARENA_KEYS, ("game", "game", "main", "old-rst")))
    langs = draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(sorted(t["texts"])), unique=True)))
    return dict(data=d, tables=t, langs=langs, via=draw(st.sampled_from(["call", "call", "call", "main"])), twice=draw(st.booleans()), ascii=draw(st.booleans()))


def check_langs(tree, d, t, wanted, ctx):
    eq(sorted(tree), [f"{l}.json" for l in wanted], "exported files")
    for l in wanted:
        got = json.loads(tree[f"{l}.json"].decode("utf-8"))
        m = T.model_arena(d, T.translator(t, l))
        eq(sorted(got), ["augments"], "keys")
        eq(sorted(a["apiName"] for a in got["augments"]), sorted(a["apiName"] for a in m), f"{l} augments")
        by = {a["apiName"]: a for a in got["augments"]}
        for a in m:
            compare(by[a["apiName"]], a, f"{l} {a['apiName']}")
        ctx.nontrivial(any(a["dataValues"] or a["calculations"] for a in m))


def check(case, ctx):
    d, t = case["data"], case["tables"]
    game = d["game"]
    install(d)
    root, out = ctx.tmp(), ctx.tmp() + "/arena/out"
    T.put(root, "data/maps/shipping/map30/map30.bin", T.arena_bin(d))
    T.write_tables(root, t, game, "lol")
    before = ref.read_tree(root)
    langs = case["langs"]
    try:
        with default_encoding("ascii") if case["ascii"] else contextlib.nullcontext():
            for _ in range(1 + case["twice"]):
                if case["via"] == "main":
                    langs = None
                    run_main(arenadata, [root, "-o", out] + ([] if game == 9999 else ["-V", version_text(game)]))
                else:
                    arenadata.ArenaTransformer(root, game).export(out, langs=langs)
    except Exception as e:
        expect(False, f"export failed: {type(e).__name__}: {e}")
    eq(ref.read_tree(root), before, "input files")
    wanted = sorted(t["texts"]) if langs is None else sorted(langs)
    check_langs({p: x for p, x in ref.read_tree(out).items() if x is not None}, d, t, wanted, ctx)
    ctx.label(f"layout:{t['layout']}", f"game{game}")


# --- as part of the export of a patch

@st.composite
def patch_cases(draw):
    d = draw(T.arena_data())
    t = draw(T.tables(T.ARENA_KEYS, ("game",) if d["game"] >= 1404 else ("old-rst",)))
    tft = draw(T.tft_data())
    tft["game"] = d["game"]
    tft["champs"] = [dict(c, file="none") for c in tft["champs"]]
    return dict(data=d, tables=t, tft=tft, tft_tables=dict(draw(T.tables(T.ALL_KEYS)), layout=t["layout"]))


def check_patch(case, ctx):
    t, tt = case["tables"], case["tft_tables"]
    # the hash lists are the same for both
    names = dict(names=case["data"]["names"] + case["tft"]["names"], typenames=case["data"]["typenames"])
    d, tft = dict(case["data"], **names), dict(case["tft"], **names)
    game = d["game"]
    if t["layout"] == "old-rst":
        # one table for both games
        tt = dict(t, texts={l: dict(t["texts"][l], **tt["texts"].get(l, {})) for l in t["texts"]})
        t = tt
    root = ctx.tmp()
    T.write_tft(root + "/in", tft)
    with open(root + "/in/data/maps/shipping/map22/map22.bin", "rb") as f:
        map22 = f.read()
    wads = {"DATA/FINAL/Maps/Shipping/Map22.wad.client": [("data/maps/shipping/map22/map22.bin", map22, 3), ("data/maps/shipping/map30/map30.bin", T.arena_bin(d), 0)]}
    paths = ["data/maps/shipping/map22/map22.bin", "data/maps/shipping/map30/map30.bin"]
    for name, tab in (("lol", t), ("tft", tt)):
        for l in tab["texts"]:
            if t["layout"] == "game":
                p = f"data/menu/en_us/{name}.stringtable"
            else:
                p = f"data/menu/main_{l}.stringtable"
                if name == "tft":
                    continue
            code = l[:3] + l[3:].upper()
            wads.setdefault(f"DATA/FINAL/Localized/Global.{code}.wad.client", []).append((p, T.table_bytes(tab, l, game), 3))
            paths.append(p)
    patchgen.set_hashes(game=sorted(set(paths)))
    binlib.install_names(T.all_names(d))
    H.hashfile_game.hashes = {**T.known_paths(), wadgen.TOC_HASH: "data/wad.subchunktoc", **{wadgen.wad_hash(p): p for p in paths}}
    patch = patchgen.make_patch(root, "p", version_text(game), {}, {n: patchgen.wad_bytes(f) for n, f in wads.items()})
    out = root + "/out"
    try:
        CdragonRawPatchExporter(out, patch).process()
    except Exception as e:
        expect(False, f"export failed: {type(e).__name__}: {e}")
    tree = {p: x for p, x in ref.read_tree(out).items() if x is not None}
    arena = {p[len("cdragon/arena/"):]: x for p, x in tree.items() if p.startswith("cdragon/arena/")}
    check_langs(arena, d, t, sorted(t["texts"]), ctx)
    got = {p[len("cdragon/tft/"):]: x for p, x in tree.items() if p.startswith("cdragon/tft/")}
    eq(sorted(got), [f"{l}.json" for l in sorted(tt["texts"])], "exported TFT files")
    for l in tt["texts"]:
        check_lang(json.loads(got[f"{l}.json"].decode()), tft, T.translator(tt, l), l)
    ctx.label(f"game{game}")


SUBS = [
    Sub("export", cases, check, 4500, 80000, "an exported augment has data values or calculations", shards=8),
    Sub("patch", patch_cases, check_patch, 600, 8000, "an exported augment has data values or calculations", shards=8),
]
