"""C27 TFT data is exported faithfully for every language"""
import contextlib
import json
import os
import sys
from hypothesis import strategies as st
from vp import tftgen as T, bingen, binlib, ref
from vp.core import Sub, default_encoding, eq, expect, short
from cdtb import hashes as H
from cdtb import rstfile as R
from cdtb import tftdata

ASSUMPTIONS = ["game data is complete: items refer to published items and existing traits, champions to existing roles, sets have a script data map with a set name entry, spells have spell data",
               "icons are set in one of the known fields", "names of traits, items, champions are distinct; names of data values are texts", "requested languages are available"]


@st.composite
def cases(draw):
    d = draw(T.tft_data())
    t = draw(T.tables())
    langs = draw(st.one_of(st.none(), st.lists(st.sampled_from(sorted(t["texts"])), unique=True)))
    return dict(data=d, tables=t, langs=langs, via=draw(st.sampled_from(["call", "call", "call", "main"])), twice=draw(st.booleans()), ascii=draw(st.booleans()))


def canon(v):
    return json.dumps(v, sort_keys=True)


def unordered(l):
    return sorted(l, key=canon)


def compare(got, want, what):
    expect(bingen.same_json(got, want), lambda: f"{what}: {short(diff(got, want), 900)}")


def diff(got, want, path=""):
    if isinstance(got, dict) and isinstance(want, dict):
        for k in sorted(set(got) | set(want)):
            if k not in got or k not in want:
                return f"{path}.{k}: {'missing' if k not in got else 'unexpected'}"
            if not bingen.same_json(got[k], want[k]):
                return diff(got[k], want[k], f"{path}.{k}")
    if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            if not bingen.same_json(a, b):
                return diff(a, b, f"{path}[{i}]")
    return f"{path}: got {got!r}, want {want!r}"


def check_lang(got, d, tr, lang):
    m = T.model_tft(d, tr)
    # names of traits of champions are texts as well
    names = {t["name"]: tr(t["key"]) for t in d["traits"]}
    compare(unordered(got["items"]), unordered(m["items"]), f"{lang} items")
    eq(sorted(got), ["items", "setData", "sets"], "keys")
    if d["sets"]:
        choices = [m["sets"]]
    else:
        # data without sets: the longest lists are used
        n = max(map(len, d["charlists"]))
        k = max(map(len, d["traitlists"]))
        choices = [[dict(number=1, name="Base", traits=[m["traits"][t] for t in tl if t in m["traits"]], champions=[m["champs"][c] for c in cl if c in m["champs"]], augments=[], items=[])]
                   for cl in d["charlists"] if len(cl) == n for tl in d["traitlists"] if len(tl) == k]
    data = [dict(s, traits=unordered(s["traits"]), champions=unordered(s["champions"])) for s in got["setData"]]
    wanted = [unordered([dict(s, traits=unordered(s["traits"]), champions=unordered(s["champions"])) for s in sets]) for sets in choices]
    if not d["sets"]:
        for s in data:
            s.pop("mutator", None)
    data = unordered(data)
    if len(wanted) == 1 or data not in wanted:
        compare(data, wanted[0], f"{lang} setData")
    numbers = {}
    for s in data:
        numbers.setdefault(str(s["number"]), []).append({k: s[k] for k in ("name", "traits", "champions")})
    eq(set(got["sets"]), set(numbers), f"{lang} set numbers")
    for n, s in got["sets"].items():
        s = dict(s, traits=unordered(s["traits"]), champions=unordered(s["champions"]))
        if s not in numbers[n]:
            compare(s, numbers[n][-1], f"{lang} set {n}")
    return m


def install(d):
    binlib.install_names(T.all_names(d))
    H.hashfile_game.hashes = T.known_paths()
    R.hashfile_rst_xxh64.hashes = {}
    R.hashfile_rst_xxh3.hashes = {}


def run_main(module, argv):
    old = sys.argv
    sys.argv = ["data"] + argv
    try:
        module.main()
    finally:
        sys.argv = old


def version_text(game):
    return "main" if game == 9999 else f"{game // 100}.{game % 100}"


def check(case, ctx):
    d, t = case["data"], case["tables"]
    game = d["game"]
    install(d)
    root, out = ctx.tmp(), ctx.tmp() + "/tft/out"
    T.write_tft(root, d)
    T.write_tables(root, t, game, "tft")
    before = ref.read_tree(root)
    langs = case["langs"]
    try:
        with default_encoding("ascii") if case["ascii"] else contextlib.nullcontext():
            for _ in range(1 + case["twice"]):
                if case["via"] == "main":
                    langs = None
                    run_main(tftdata, [root, "-o", out] + ([] if game == 9999 else ["-V", version_text(game)]))
                else:
                    tftdata.TftTransformer(root, game).export(out, langs=langs)
    except Exception as e:
        expect(False, f"export failed: {type(e).__name__}: {e}")
    eq(ref.read_tree(root), before, "input files")
    wanted = sorted(t["texts"]) if langs is None else sorted(langs)
    tree = {p: x for p, x in ref.read_tree(out).items() if x is not None}
    eq(sorted(tree), [f"{l}.json" for l in wanted], "exported files")
    for l in wanted:
        m = check_lang(json.loads(tree[f"{l}.json"].decode("utf-8")), d, translate(t, l), l)
        ctx.label(f"layout:{t['layout']}")
        ctx.nontrivial(any(s["champions"] or s["traits"] for s in m["sets"]) and m["items"])
    ctx.label("old" if not d["sets"] else "sets", f"game{game}")


def translate(t, lang):
    return T.translator(t, lang)


SUBS = [
    Sub("export", cases, check, 3000, 80000, "the data has items, and a set with champions or traits", shards=8),
]
